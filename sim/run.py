"""CLI.

  run.py check ID [--tier quick|thorough] [--cases N] [--jobs J]
  run.py replay FILE
  run.py one ID INDEX            run one generated case and print its result
  run.py selftest [ID ...]       determinism of the simulator itself
"""
import argparse
import copy
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.setrecursionlimit(5000)
REAL_TIME = time.time

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import core  # noqa: E402
from core import HarnessError, dumps, execute, rng_for  # noqa: E402
from registry import REGISTRY  # noqa: E402

CASE_WALL = 100


def load(pid):
    mod, cls = REGISTRY[pid]
    return getattr(importlib.import_module(mod), cls)()


def _child(workload, gen, wfd):
    """Runs in a forked copy of the pristine parent: one case, one process."""
    try:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        case = gen()
        r = execute(workload, case)
        msg = {"ok": True, "res": r}
    except BaseException as e:  # noqa: BLE001
        import traceback

        msg = {"ok": False, "err": "".join(traceback.format_exception(e))[-3000:]}
    data = json.dumps(msg).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


class Pool:
    def __init__(self, workload, jobs):
        self.w, self.jobs = workload, jobs
        self.live = {}

    def start(self, key, gen):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in list(self.live):
                try:
                    os.close(fd)
                except OSError:
                    pass
            _child(self.w, gen, w)
        os.close(w)
        self.live[r] = [key, pid, bytearray(), REAL_TIME()]

    def wait(self):
        """Yield (key, message) of finished children; blocks for at least one event."""
        rd, _, _ = select.select(list(self.live), [], [], 1.0)
        out = []
        for fd in rd:
            b = os.read(fd, 1 << 16)
            if b:
                self.live[fd][2] += b
                continue
            key, pid, buf, _t = self.live.pop(fd)
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st):
                out.append((key, {"ok": True, "crash": os.WTERMSIG(st)}))
            else:
                out.append((key, json.loads(bytes(buf))))
        now = REAL_TIME()
        for fd, rec in list(self.live.items()):
            if now - rec[3] > CASE_WALL:
                os.kill(rec[1], signal.SIGKILL)
                self.live.pop(fd)
                os.close(fd)
                os.waitpid(rec[1], 0)
                out.append((rec[0], {"ok": False, "timeout": True, "err": "case exceeded %d s of real time" % CASE_WALL}))
        return out

    def kill(self):
        for fd, rec in list(self.live.items()):
            os.kill(rec[1], signal.SIGKILL)
            os.close(fd)
            os.waitpid(rec[1], 0)
        self.live.clear()


def run_case(workload, case):
    p = Pool(workload, 1)
    p.start(0, (case if callable(case) else (lambda: case)))
    while p.live:
        for _k, m in p.wait():
            return m


def norm(m):
    """A child's message -> (violation or None, result or None)."""
    if m.get("timeout"):
        return ["liveness", "the run made no progress within %d s of real time, alone on the machine" % CASE_WALL], None
    if not m["ok"]:
        return None, None
    if "crash" in m:
        return ["crash", "the interpreter died with signal %d" % m["crash"]], None
    return m["res"]["violation"], m["res"]


def make_case(workload, seed, idx, tier):
    rng = rng_for(seed, idx)
    case = workload.generate(rng, tier)
    case["property"] = workload.pid
    case["seed"] = seed
    case["index"] = idx
    case.setdefault("addr", rng.getrandbits(40))
    return json.loads(dumps(case))


# ------------------------------------------------------------------ shrinking
def shrink(workload, case, cls, budget_s=75.0, max_runs=600):
    t0 = REAL_TIME()
    runs = [0]

    def fails(c):
        if runs[0] >= max_runs or REAL_TIME() - t0 > budget_s:
            return False
        runs[0] += 1
        m = run_case(workload, c)
        v, _ = norm(m)
        return v is not None and v[0] == cls

    cur = case
    changed = True
    while changed and REAL_TIME() - t0 < budget_s:
        changed = False
        for key in workload.shrink_lists:
            items = cur.get(key)
            if not isinstance(items, list) or not items:
                continue
            k = max(1, len(items) // 2)
            while k >= 1:
                i = 0
                while i < len(cur[key]):
                    c = copy.deepcopy(cur)
                    del c[key][i:i + k]
                    if len(c[key]) < len(cur[key]) and fails(c):
                        cur = c
                        changed = True
                    else:
                        i += k
                k //= 2
        for i, op in enumerate(cur.get("ops", [])):
            if isinstance(op, dict) and op.get("fault"):
                c = copy.deepcopy(cur)
                c["ops"][i]["fault"] = None
                if fails(c):
                    cur = c
                    changed = True
        for c in workload.simplify(cur):
            if fails(c):
                cur = json.loads(dumps(c))
                changed = True
                break
    return cur, runs[0]


# ---------------------------------------------------------------- known items
def known_for(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def is_known(known, v):
    return any(k.get("class") == v[0] and (k.get("contains", "") in v[1]) for k in known)


# --------------------------------------------------------------------- check
def check(pid, tier, cases=None, jobs=None, seed=None, quiet=False, wall=None):
    t0 = REAL_TIME()
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    jobs = jobs or int(os.environ.get("SIM_JOBS", "0")) or (os.cpu_count() or 4)
    w = load(pid)
    n = cases or w.cases[tier]
    wall = wall or {"quick": 420.0, "thorough": 3300.0}[tier]
    known = known_for(pid)
    print("SIM property=%s tier=%s seed=%d runs=%d jobs=%d" % (pid, tier, seed, n, jobs), flush=True)

    pool = Pool(w, jobs)
    nxt = 0
    agg = dict(runs=0, ops=0, sim_lines=0, switches=0, clock=0.0)
    fired, probes, kinds = {}, {}, {}
    digests, states, inter = set(), set(), set()
    recheck, mism = {}, 0
    bad = []
    errors = []
    known_hit = {}
    slow = []
    lim = n
    stop = False
    while (nxt < lim and not stop) or pool.live:
        while nxt < lim and not stop and len(pool.live) < jobs:
            i = nxt
            pool.start(i, lambda i=i: make_case(w, seed, i, tier))
            nxt += 1
        for key, m in pool.wait():
            if m.get("timeout"):
                slow.append(key)
                if len(slow) >= 2:
                    stop = True
                continue
            if not m["ok"]:
                errors.append((key, m))
                stop = True
                continue
            v, r = norm(m)
            agg["runs"] += 1
            if v is not None:
                if is_known(known, v):
                    known_hit[v[0]] = v[1]
                else:
                    bad.append((key, v))
                    stop = True
            if r is None:
                continue
            agg["ops"] += r["nops"]
            agg["sim_lines"] += r["sim_lines"]
            agg["switches"] += r["switches"]
            agg["clock"] += r["clock"]
            for f in r["fired"]:
                fired[f] = fired.get(f, 0) + 1
            for k, c in r["probes"].items():
                probes[k] = probes.get(k, 0) + c
            if r["nontrivial"]:
                digests.add(r["digest"])
            states.update(r["states"])
            inter.update(r["inter"])
            if key < 16:
                recheck[key] = r["digest"]
        if REAL_TIME() - t0 > wall:
            stop = True
    if not bad:
        # a run that hit the wall limit among others is repeated alone
        for key in sorted(slow)[:2]:
            m = run_case(w, lambda: make_case(w, seed, key, tier))
            v, r = norm(m)
            if v is not None and not is_known(known, v):
                bad.append((key, v))
                break
            if not m["ok"]:
                errors.append((key, m))
    search_s = REAL_TIME() - t0

    # replay a sample to show that one seed is one execution
    if not bad and not errors:
        p2 = Pool(w, jobs)
        ks = sorted(recheck)
        while ks or p2.live:
            while ks and len(p2.live) < jobs:
                i = ks.pop(0)
                p2.start(i, lambda i=i: make_case(w, seed, i, tier))
            for key, m in p2.wait():
                v, r = norm(m)
                if r is None or r["digest"] != recheck[key]:
                    mism += 1

    samples = []
    for i in range(min(2, n)):
        c = make_case(w, seed, i, tier)
        s = dumps(c)
        samples.append(json.loads(s) if len(s) < 6000 else {"index": i, "abridged": s[:4000]})
    wall_s = REAL_TIME() - t0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(digests),
        "rule": w.rule,
        "samples": samples,
        "simulated_runs": agg["runs"],
        "seeds_per_hour": int(agg["runs"] / max(search_s, 1e-6) * 3600),
        "operations": agg["ops"],
        "simulated_time_library_lines": agg["sim_lines"],
        "simulated_clock_seconds": round(agg["clock"], 3),
        "faults_fired": dict(sorted(fired.items())),
        "probes": dict(sorted(probes.items())),
        "thread_switches": agg["switches"],
        "distinct_interleavings": len(inter),
        "distinct_states": len(states),
        "state_measure": w.state_measure,
        "determinism_rechecked": len(recheck),
        "determinism_mismatches": mism,
        "real_components": w.real,
        "stub_components": w.stubs + ["matplotlib (never drawn)"],
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": w.assumptions,
        "wall_s": round(wall_s, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def write_ev():
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    write_ev()
    for k in known:
        # a listed finding is re-demonstrated on its own input
        case = k.get("case")
        if case is not None:
            v, _ = norm(run_case(w, case))
            if v is not None and v[0] == k["class"]:
                known_hit[k["class"]] = v[1]
        if k["class"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
    if bad:
        bad.sort()
        key, v = bad[0]
        case = make_case(w, seed, key, tier)
        print("failing run: seed=%d index=%d class=%s: %s" % (seed, key, v[0], v[1]), flush=True)
        small, nr = (case, 0) if v[0] == "liveness" else shrink(w, case, v[0])
        m = run_case(w, small)
        v2, r2 = norm(m)
        if v2 is None or v2[0] != v[0]:
            small, v2, r2 = case, v, None
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-s%d-i%d.json" % (pid, seed, key))
        rec = {"property": pid, "class": v2[0], "message": v2[1], "seed": seed, "index": key,
               "digest": None if r2 is None else r2["digest"], "shrink_runs": nr,
               "trace_tail": None if r2 is None else r2["tail"], "case": small}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        rp = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "replay", path],
                            capture_output=True, text=True)
        ok = rp.returncode == 1 and "VIOLATION" in rp.stdout
        if not ok:
            rec["case"] = case
            rec["note"] = "minimised case did not replay; original kept"
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
        print("minimised: class=%s: %s (replay in a fresh process: %s)" % (v2[0], v2[1], "reproduced" if ok else "original kept"))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        for key, m in errors[:3]:
            print("HARNESS ERROR index=%d: %s" % (key, m.get("err")), file=sys.stderr)
        return 2
    if mism:
        print("WARNING: %d of %d re-executed runs differed" % (mism, len(recheck)), file=sys.stderr)
    if agg["runs"] < n:
        print("note: wall limit reached after %d of %d runs" % (agg["runs"], n))
    print("OK property=%s runs=%d distinct=%d faults=%d wall=%.1fs" % (
        pid, agg["runs"], len(digests), sum(fired.values()), wall_s), flush=True)
    return 0


def replay(path):
    rec = json.load(open(path))
    w = load(rec["property"])
    m = run_case(w, rec["case"])
    if not m["ok"]:
        print("HARNESS ERROR", m.get("err"))
        return 2
    v, r = norm(m)
    if v is None:
        print("replay: no violation")
        return 0
    print("replay: class=%s: %s" % (v[0], v[1]))
    if r is not None:
        for t in r["tail"]:
            print("   ", t)
        if rec.get("digest"):
            print("    event digest %s, recorded %s" % (r["digest"], rec["digest"]))
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


def digests(pid, seed, n, jobs):
    w = load(pid)
    pool = Pool(w, jobs)
    out = {}
    i = 0
    while i < n or pool.live:
        while i < n and len(pool.live) < jobs:
            pool.start(i, lambda i=i: make_case(w, seed, i, "quick"))
            i += 1
        for key, m in pool.wait():
            v, r = norm(m)
            out[key] = None if r is None else r["digest"]
    return [out[k] for k in range(n)]


def selftest(pids, n=24):
    bad = 0
    for pid in pids:
        ref = None
        for hs in ("0", "1", "4242"):
            for jobs in (1, 5, 8):
                if jobs == 1 and hs != "0":
                    continue
                for rep in range(2 if jobs == 8 else 1):
                    e = dict(os.environ, PYTHONHASHSEED=hs)
                    r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "digests", pid,
                                        "--cases", str(n), "--jobs", str(jobs)], capture_output=True, text=True, env=e)
                    line = [x for x in r.stdout.splitlines() if x.startswith("[")]
                    d = json.loads(line[-1]) if line else None
                    if d is None:
                        print(r.stderr[-500:])
                    if ref is None:
                        ref = d
                    elif d != ref:
                        diff = [i for i in range(n) if d is None or d[i] != ref[i]]
                        print("MISMATCH", pid, "hashseed", hs, "jobs", jobs, diff[:10])
                        bad += 1
        print("selftest", pid, "ok" if not bad else "FAILED", flush=True)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--cases", type=int, default=None)
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--start", type=int, default=0)
    a = ap.parse_args()
    if a.cmd == "check":
        tier = a.tier or os.environ.get("VERIF_TIER", "quick")
        return check(a.args[0], tier, a.cases, a.jobs, a.seed)
    if a.cmd == "replay":
        return replay(a.args[0])
    if a.cmd == "one":
        w = load(a.args[0])
        c = make_case(w, a.seed or 1, int(a.args[1]), a.tier or "quick")
        print(dumps(c)[:6000])
        t = REAL_TIME()
        print(json.dumps(run_case(w, c), indent=1)[:6000])
        print("%.2fs" % (REAL_TIME() - t))
        return 0
    if a.cmd == "digests":
        print(json.dumps(digests(a.args[0], a.seed or 1, a.cases or 16, a.jobs or 8)))
        return 0
    if a.cmd == "setup":
        for pid in sorted(REGISTRY):
            load(pid)
        print("ready:", " ".join(sorted(REGISTRY)))
        return 0
    if a.cmd == "selftest":
        return selftest(a.args or sorted(REGISTRY), a.cases or 24)
    raise SystemExit("unknown command")


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError as e:
        print("HARNESS ERROR", e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

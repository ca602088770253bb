"""H01 hypothesis store, H03 provenance."""
import copy

from work import *  # noqa: F401,F403
from work import Workload, gen_interrupt, gen_console, gen_ref, gen_schedule, build_ref, ref_year, Datum, HY

TYPES = ["Upper bound on beta", "Exponent pair", "Upper bound on mu", "Large value estimate",
         "Zero density estimate", "Exponent pair transform", "Large value energy region"]
WORDS = ["Huxley", "Bourgain", "van der Corput", "A transform", "B transform", "k = 2", "k = 20", "estimate", "pair",
         "Huxley large", "Heath-Brown"]


class HypothesisStore(Workload):
    pid = "H01"
    cases = {"quick": 3000, "thorough": 60000}
    rule = ("seeded histories of 6-40 store operations (create from every accepted container, copy, add in every "
            "accepted form, list by type and year, find by type/value/keywords/year, iterate, len) over up to 5 "
            "aliasing sets of up to 14 hypotheses with seeded addresses, with interruptions inside additions, failing "
            "consoles inside searches and concurrent caller threads; non-trivial when at least one add was followed "
            "by a non-empty listing; distinct by event log")
    real = ["hypotheses.py", "reference.py"]
    assumptions = ["callers that list a set do not run concurrently with callers that add to it (Python raises)"]

    def generate(self, rng, tier):
        nh = rng.randint(2, 14)
        hyps = []
        for i in range(nh):
            if hyps and rng.random() < 0.2:
                d = dict(rng.choice(hyps))          # equal twin: same name, type, data, reference
                hyps.append(d)
                continue
            nm = ", ".join(rng.sample(WORDS, rng.randint(1, 3))) if rng.random() < 0.7 else rng.choice(WORDS)
            hyps.append({"name": nm.replace(",", ""), "type": rng.choice(TYPES[:rng.randint(1, len(TYPES))]),
                         "data": rng.randint(0, 4), "ref": gen_ref(rng, lo=1990, hi=1996)})
        ops = []
        nsets = 1
        ops.append({"op": "new", "form": rng.choice(["none", "list", "set", "gen", "tuple", "frozenset"]),
                    "hs": rng.sample(range(nh), rng.randint(0, nh))})
        for _ in range(rng.randint(6, 40)):
            r = rng.random()
            s = rng.randrange(nsets)
            if r < 0.08 and nsets < 5:
                f = rng.choice(["none", "list", "set", "gen", "tuple", "store", "dict"])
                ops.append({"op": "new", "form": f, "hs": rng.sample(range(nh), rng.randint(0, nh)), "src": s})
                nsets += 1
            elif r < 0.16 and nsets < 5:
                ops.append({"op": "copy", "s": s})
                nsets += 1
            elif r < 0.26:
                ops.append({"op": "add1", "s": s, "h": rng.randrange(nh), "inv": rng.random() < 0.7})
            elif r < 0.44:
                ops.append({"op": "addm", "s": s, "form": rng.choice(["list", "set", "gen", "tuple", "store", "single", "self", "frozenset"]),
                            "hs": [rng.randrange(nh) for _ in range(rng.randint(0, 5))], "src": rng.randrange(nsets),
                            "inv": rng.random() < 0.7,
                            "fault": gen_interrupt(rng, 12) if rng.random() < 0.35 else None})
            elif r < 0.64:
                ops.append({"op": "list", "s": s, "type": rng.choice(["Any", "none"] + TYPES[:4]),
                            "year": rng.choice(["Any", "Any"] + list(range(1989, 1998)) + [-1, 0]),
                            "kw": rng.random() < 0.5,
                            "fault": gen_interrupt(rng, 60) if rng.random() < 0.15 else None})
            elif r < 0.86:
                h = rng.randrange(nh)
                ops.append({"op": "find", "s": s, "like": h,
                            "use": [rng.random() < 0.5 for _ in range(4)],
                            "kws": rng.choice([None, "exact", "part", "two", "miss"]),
                            "year": rng.choice([None, None, 1992, 1993, 1995, -1]),
                            "fault": rng.choice([None, None, gen_console(rng, 2), gen_interrupt(rng, 60)])})
            elif r < 0.93:
                ops.append({"op": "iter", "s": s, "how": rng.choice(["list", "to_list", "nested", "repr", "proofs", "desc"]),
                            "fault": gen_console(rng, 6) if rng.random() < 0.4 else None})
            else:
                kind = rng.choice(["write", "read"])
                k = rng.randint(2, 3)
                ops.append({"op": "threads", "s": s, "kind": kind,
                            "hs": [[rng.randrange(nh) for _ in range(rng.randint(1, 4))] for _ in range(k)],
                            "forms": [rng.choice(["one", "list", "store"]) for _ in range(k)],
                            "type": rng.choice(["Any"] + TYPES[:3]),
                            "sched": gen_schedule(rng, k, 60, rng.choice([1.5, 3, 8]))})
        return {"hyps": hyps, "ops": ops}

    # ------------------------------------------------------------------ run
    def run(self, case, e):
        H = []
        for d in case["hyps"]:
            H.append(HY.Hypothesis(d["name"], d["type"], Datum(d["data"]), "proof", build_ref(d["ref"])))
        spec = case["hyps"]
        idx = {id(h): i for i, h in enumerate(H)}
        S, M = [], []                 # stores and their models (sets of indices)

        def content(s):
            out = []
            for h in list(S[s]):
                if id(h) not in idx:
                    e.fail("foreign-element", "store %d holds an object nobody added: %r" % (s, h))
                out.append(idx[id(h)])
            return out

        def check(s, where):
            c = content(s)
            if len(c) != len(set(c)) or set(c) != M[s]:
                e.fail("membership", "%s: store %d holds %s, the history added %s" % (where, s, sorted(c), sorted(M[s])))
            if len(S[s]) != len(M[s]):
                e.fail("membership", "%s: len(store %d) is %d, the history added %d" % (where, s, len(S[s]), len(M[s])))

        def check_all(where):
            for s in range(len(S)):
                check(s, where)

        def form(f, hs, src=None):
            L = [H[i] for i in hs]
            if f == "list":
                return L
            if f == "set":
                return set(L)
            if f == "frozenset":
                return frozenset(L)
            if f == "tuple":
                return tuple(L)
            if f == "gen":
                return (x for x in L)
            if f == "dict":
                return {x: 1 for x in L}
            if f == "store":
                return S[src]
            raise HarnessError(f)

        def match(i, typ, year):
            d = spec[i]
            if typ != "Any" and typ != d["type"]:
                return False
            if year == "Any":
                return True
            k, _ = d["ref"]
            if k in ("derived", "derived_unknown", "classical"):
                return True
            if k == "conjectured":
                return False
            y = ref_year(d["ref"])
            return y != "Unknown date" and y <= year

        for n, op in enumerate(case["ops"]):
            o = op["op"]
            lab = "%s#%d" % (o, n)
            if o == "new":
                if op["form"] == "none":
                    r = e.must(lambda: HY.Hypothesis_Set(), lab)
                    m = set()
                elif op["form"] == "store":
                    if op["src"] >= len(S):
                        continue
                    r = e.must(lambda: HY.Hypothesis_Set(S[op["src"]]), lab)
                    m = set(M[op["src"]])
                else:
                    a = form(op["form"], op["hs"])
                    r = e.must(lambda: HY.Hypothesis_Set(a), lab)
                    m = set(op["hs"])
                S.append(r.value)
                M.append(m)
            elif not S or op.get("s", 0) >= len(S):
                continue
            elif o == "copy":
                r = e.must(lambda: copy.copy(S[op["s"]]), lab)
                S.append(r.value)
                M.append(set(M[op["s"]]))
            elif o == "add1":
                e.must(lambda: S[op["s"]].add_hypothesis(H[op["h"]], op["inv"]), lab)
                M[op["s"]].add(op["h"])
                e.probe("adds")
            elif o == "addm":
                s, f = op["s"], op["form"]
                hs = list(op["hs"])
                if f == "single":
                    if not hs:
                        continue
                    hs = hs[:1]
                    arg = H[hs[0]]
                elif f == "self":
                    arg, hs = S[s], []
                elif f == "store":
                    if op["src"] >= len(S):
                        continue
                    arg, hs = S[op["src"]], sorted(M[op["src"]])
                else:
                    arg = form(f, hs)
                r = e.must(lambda: S[s].add_hypotheses(arg, op["inv"]), lab, op["fault"])
                if r.ok:
                    M[s] |= set(hs)
                else:
                    c = set(content(s))
                    if not (M[s] <= c <= M[s] | set(hs)):
                        e.fail("interrupted-add", "after an interrupted addition store %d holds %s, before %s, adding %s" % (
                            s, sorted(c), sorted(M[s]), hs))
                    M[s] = c
                    e.probe("interrupted_adds")
                    check_all(lab)
                    if f not in ("gen",):
                        e.must(lambda: S[s].add_hypotheses(arg, op["inv"]), lab + "-retry")
                        M[s] |= set(hs)
                e.probe("adds")
            elif o == "list":
                s = op["s"]
                exp = [i for i in M[s] if match(i, op["type"], op["year"])]
                if op["kw"]:
                    fn = lambda: S[s].list_hypotheses(hypothesis_type=op["type"], year=op["year"])
                elif op["year"] == "Any":
                    fn = lambda: S[s].list_hypotheses(op["type"])
                else:
                    fn = lambda: S[s].list_hypotheses(op["type"], op["year"])
                r = e.must(fn, lab, op["fault"])
                if r.ok:
                    got = [idx.get(id(h), -1) for h in r.value]
                    e.log("order", got)
                    if sorted(got) != sorted(exp):
                        e.fail("listing", "listing type=%r year=%r of store %d gave %s, expected %s (hypotheses %s)" % (
                            op["type"], op["year"], s, sorted(got), sorted(exp), [spec[i] for i in sorted(set(got) ^ set(exp))]))
                    e.cover("list", op["type"] == "Any", str(op["year"])[:3], len(exp), len(M[s]))
                    if exp and e.probes.get("adds"):
                        e.probe("nontrivial")
            elif o == "find":
                s = op["s"]
                d = spec[op["like"]]
                kw = {}
                u = op["use"]
                if u[0]:
                    kw["hypothesis_type"] = d["type"]
                if u[1]:
                    kw["data"] = Datum(d["data"])
                words = None
                if op["kws"] == "exact":
                    words = d["name"]
                elif op["kws"] == "part":
                    words = d["name"][: max(3, len(d["name"]) // 2)]
                elif op["kws"] == "two":
                    t = d["name"]
                    words = t[-4:] + " , " + t[:4]
                elif op["kws"] == "miss":
                    words = d["name"] + ", Zzz"
                if words is not None:
                    kw["keywords"] = words
                if op["year"] is not None:
                    kw["year"] = op["year"]

                def ok(i):
                    q = spec[i]
                    if "hypothesis_type" in kw and q["type"] != kw["hypothesis_type"]:
                        return False
                    if "data" in kw and q["data"] != d["data"]:
                        return False
                    if words is not None and not all(w.strip() in q["name"] for w in words.split(",")):
                        return False
                    if "year" in kw and ref_year(q["ref"]) != kw["year"]:
                        return False
                    return True

                exp = [i for i in M[s] if ok(i)]
                r = e.must(lambda: S[s].find_hypothesis(**kw), lab, op["fault"])
                if r.ok:
                    if r.value is None:
                        if exp:
                            e.fail("find-missed", "find(%s) on store %d found nothing although %s match" % (kw, s, exp))
                    else:
                        g = idx.get(id(r.value), -1)
                        if g not in exp:
                            e.fail("find-wrong", "find(%s) on store %d returned %s, matching are %s" % (kw, s, g, exp))
                    e.cover("find", sorted(kw), len(exp) > 0, len(exp) > 1)
                    e.probe("find_hit" if exp else "find_miss")
            elif o == "iter":
                s = op["s"]
                how = op["how"]
                if how == "list":
                    r = e.must(lambda: list(S[s]), lab)
                    got = [idx.get(id(h), -1) for h in r.value]
                elif how == "to_list":
                    r = e.must(lambda: S[s].to_list(), lab)
                    got = [idx.get(id(h), -1) for h in r.value]
                    # the caller owns the returned list
                    if isinstance(r.value, list):
                        r.value.clear()
                elif how == "nested":
                    r = e.must(lambda: [h for h in S[s] if any(g is h for g in S[s])], lab)
                    got = [idx.get(id(h), -1) for h in r.value]
                elif how == "repr":
                    r = e.must(lambda: repr(S[s]), lab)
                    if not r.value.startswith("Set of %d hypotheses" % len(M[s])):
                        e.fail("repr", "store of %d members describes itself as %r" % (len(M[s]), r.value[:40]))
                    got = sorted(M[s])
                elif how == "proofs":
                    r = e.must(lambda: S[s].list_proofs(), lab, op["fault"])
                    got = sorted(M[s])
                    if r.ok:
                        exp_lines = sorted(h.desc_with_proof() for h in [H[i] for i in M[s]])
                        if sorted(x for x in r.out.split("\n") if x) != exp_lines:
                            e.fail("proof-list", "printed proofs %r differ from the members' %r" % (r.out[:200], exp_lines[:3]))
                else:
                    r = e.must(lambda: [h.desc() for h in S[s]], lab)
                    got = sorted(M[s])
                if sorted(got) != sorted(M[s]):
                    e.fail("iteration", "%s over store %d gave %s, expected %s" % (how, s, sorted(got), sorted(M[s])))
            elif o == "threads":
                s = op["s"]
                if op["kind"] == "write":
                    fns = []
                    for hs, f in zip(op["hs"], op["forms"]):
                        if f == "one":
                            fns.append(lambda hs=hs: [S[s].add_hypothesis(H[i]) for i in hs])
                        elif f == "list":
                            fns.append(lambda hs=hs: S[s].add_hypotheses([H[i] for i in hs]))
                        else:
                            fns.append(lambda hs=hs: S[s].add_hypotheses(HY.Hypothesis_Set([H[i] for i in hs])))
                    rs = e.threads(fns, op["sched"])
                    for r in rs:
                        if not r.ok:
                            e.fail("concurrent-add", "a concurrent addition raised %s: %s" % (type(r.exc).__name__, r.exc))
                    for hs in op["hs"]:
                        M[s] |= set(hs)
                else:
                    exp = sorted(i for i in M[s] if match(i, op["type"], "Any"))
                    fns = [lambda: sorted(idx[id(h)] for h in S[s].list_hypotheses(op["type"])),
                           lambda: sorted(idx[id(h)] for h in S[s].list_hypotheses(hypothesis_type=op["type"])),
                           lambda: sorted(idx[id(h)] for h in copy.copy(S[s]).list_hypotheses(op["type"]))][: len(op["hs"])]
                    rs = e.threads(fns, op["sched"])
                    for r in rs:
                        if not r.ok:
                            e.fail("concurrent-list", "a concurrent listing raised %s: %s" % (type(r.exc).__name__, r.exc))
                        if r.value != exp:
                            e.fail("concurrent-list", "a concurrent listing gave %s, expected %s" % (r.value, exp))
            check_all(lab)
            e.cover(o, len(S), tuple(sorted(len(m) for m in M)))

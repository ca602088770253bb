"""mkbug.py [ID...]: build and confirm planted bugs described in tools/bugs/*.py, write them to seeded/.

Each description calls bug(id, prop, edits, demo, needs, breaks).  A bug is written only when the demo
passes on a clean copy, fails with the change, and the stable tests still pass with it.
With --run the property's quick check is also run against the changed copy.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "blueprint/src/python/"
ENV = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mpl", PYTHONDONTWRITEBYTECODE="1")
BUGS = {}
DEMO_SH = '''#!/bin/bash
export PYTHONPATH=/repo/blueprint/src/python MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mpl PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
'''


def bug(bid, prop, edits, demo, needs, breaks):
    assert bid not in BUGS
    BUGS[bid] = (prop, edits, demo, needs, breaks)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def demo_rc(repo, demo):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "demo.py")
        open(f, "w").write(demo)
        r = sh(["/opt/venv/bin/python", f], env=dict(ENV, PYTHONPATH=repo + "/blueprint/src/python"), cwd=repo, timeout=290)
        return r.returncode, (r.stdout + r.stderr)[-1500:]


def stable(repo):
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    with tempfile.TemporaryDirectory() as d:
        s = open("/opt/vp/test.sh").read().replace("/repo/", repo + "/")
        f = os.path.join(d, "t.sh")
        open(f, "w").write(s)
        sh(["bash", f, os.path.join(d, "o.json")], env=ENV)
        txt = open(os.path.join(d, "o.json")).read()
        o = json.loads(txt)
    ok = set(o.get("passed", []))
    return [w for w in want if w not in ok]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for f in sorted(glob.glob(HERE + "/bugs/*.py")):
        exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    base = "/tmp/bugbase_%d" % os.getpid()
    work = "/tmp/bugwork_%d" % os.getpid()
    shutil.rmtree(base, ignore_errors=True)
    sh(["git", "clone", "-q", os.environ.get("EXPDB_REPO", "/repo"), base])
    try:
        for bid, (prop, edits, demo, needs, breaks) in sorted(BUGS.items()):
            if args and bid not in args:
                continue
            if not args and "--run" not in sys.argv and os.path.exists(VERIF + "/seeded/%s/patch.diff" % bid):
                a = sh(["git", "-C", base, "apply", "--check", VERIF + "/seeded/%s/patch.diff" % bid])
                if a.returncode == 0:
                    continue
            shutil.rmtree(work, ignore_errors=True)
            sh(["cp", "-a", base, work])
            bad = False
            for fn, old, new in edits:
                p = os.path.join(work, PY, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(bid, "EDIT", fn, "matches", s.count(old)); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            diff = sh(["git", "-C", work, "diff"]).stdout
            rc0, out0 = demo_rc(base, demo)
            rc1, out1 = demo_rc(work, demo)
            miss = stable(work)
            if rc0 != 0 or rc1 == 0 or miss:
                print(bid, "REJECTED: clean", rc0, "changed", rc1, "lost tests", miss)
                print((out0 if rc0 else out1)[-1200:])
                continue
            d = VERIF + "/seeded/" + bid
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(demo)
            open(d + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
            msg = "kept"
            if "--run" in sys.argv:
                r = sh(["/opt/venv/bin/python", "-B", "sim/run.py", "check", prop], cwd=VERIF,
                       env=dict(ENV, EXPDB_REPO=work, VERIF_SEED="1"), timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
                m = [l for l in r.stdout.splitlines() if l.startswith("minimised")]
                msg += ", CAUGHT" if r.returncode == 1 and v else ", MISSED rc=%d" % r.returncode
                if m: msg += " " + m[0][:170]
                if r.returncode not in (0, 1): msg += r.stderr[-500:]
            print(bid, prop, msg, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)


main()

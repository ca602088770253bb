"""survey.py ID SEED N: failures by class, with one example each (no shrinking)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
os.environ.setdefault("PYTHONHASHSEED", "0")
import run
import collections
pid, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
w = run.load(pid)
p = run.Pool(w, 8)
i, bad, seen = 0, collections.Counter(), {}
probes = collections.Counter()
while i < n or p.live:
    while i < n and len(p.live) < 8:
        p.start(i, (lambda i=i: run.make_case(w, seed, i, "quick")))
        i += 1
    for k, m in p.wait():
        v = run.norm(m)[0]
        if not m["ok"]:
            v = "HARNESS " + str(m)[:500]
        if v:
            c = str(v)[:60]
            bad[c] += 1
            seen.setdefault(c, (k, str(v)[:600]))
print(n, "runs,", sum(bad.values()), "failures")
for c, k in bad.most_common(25):
    print(k, "x", seen[c])

"""slow.py ID SEED N: wall time of the slowest cases."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
os.environ.setdefault("PYTHONHASHSEED", "0")
import run, time
pid, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
w = run.load(pid)
p = run.Pool(w, 8)
st = {}
out = []
i = 0
while i < n or p.live:
    while i < n and len(p.live) < 8:
        p.start(i, (lambda i=i: run.make_case(w, seed, i, "quick")))
        st[i] = run.REAL_TIME(); i += 1
    for k, m in p.wait():
        out.append((run.REAL_TIME() - st[k], k))
out.sort(reverse=True)
print(out[:8], "median", out[len(out)//2])

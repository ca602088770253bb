"""cover.py [PID[:N] ...]: lines of /repo each workload's first N cases execute (all of them by default); prints lines never reached."""
import sys, os, dis
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim"))
os.environ.setdefault("PYTHONHASHSEED", "0")
import run as R, env, types, glob
M = sys.monitoring
hit = {}
def line(code, n):
    f = code.co_filename
    if f.startswith(env.SRC):
        hit.setdefault(os.path.basename(f), set()).add(n)
    return M.DISABLE
M.use_tool_id(3, "cov")
M.register_callback(3, M.events.LINE, line)
args = [a.split(":") for a in sys.argv[1:]] or [[p] for p in R.REGISTRY]
for a in args:
    w = R.load(a[0])
    n = int(a[1]) if len(a) > 1 else 120
    M.set_events(3, M.events.LINE)
    for i in range(n):
        try: R.execute(w, R.make_case(w, 1, i, "quick"))
        except BaseException as ex: print("case", i, type(ex), file=sys.stderr)
    M.set_events(3, 0)
    print(a[0], {k: len(v) for k, v in hit.items()}, file=sys.stderr)
def lines(code, out):
    for _, _, l in code.co_lines():
        if l: out.setdefault(l, code.co_qualname)
    for c in code.co_consts:
        if isinstance(c, types.CodeType): lines(c, out)
for f in sorted(glob.glob(env.SRC + "/*.py") + glob.glob(env.SRC + "/helpers/*.py")):
    b = os.path.basename(f)
    if b in ("literature.py", "examples.py", "derived.py", "visualizations.py", "polynomial.py"): continue
    out = {}
    code = compile(open(f).read(), f, "exec")
    for c in code.co_consts:
        if isinstance(c, types.CodeType): lines(c, out)
    miss = {}
    for l, q in sorted(out.items()):
        if l not in hit.get(b, ()): miss.setdefault(q, []).append(l)
    print(b, "reached", sum(1 for l in out if l in hit.get(b, ())), "of", len(out))
    for q, ls in miss.items():
        print("   ", q, len(ls), ls if len(ls) < 12 else "%d..%d" % (ls[0], ls[-1]))

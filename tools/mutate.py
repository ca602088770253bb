"""mutate.py SEED COUNT [FILE...]: how much do the checks see of small random changes?

Draws COUNT random one-place changes of the library (an operator, a constant, a bound, a dropped
statement ...), discards those the build or the stable tests notice, runs the properties that cover the
file one after the other (a limited number of cases each, one core per change, first failure ends it) and
prints the changes nobody noticed.  Those are read by hand: equivalent, outside every property, or a gap.
"""
import ast, collections, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EXPDB_REPO", "/repo")
PY = "blueprint/src/python/"
COVERS = {
    "additive_energy.py": "A01 A02 X01", "bound_beta.py": "B01 L02", "bound_mu.py": "M01 H02 H03",
    "exponent_pair.py": "E01 H02 M01 H03", "functions.py": "F02 F01 T01 Z01 D01 V01", "hypotheses.py": "H01 H03 H02 T01",
    "large_values.py": "L01 L02 D01 H03 T01", "polynomial.py": "F02 T01", "polytope.py": "P01 P02 P03 T01 G01 V01",
    "prime_gap.py": "N01", "reference.py": "R01 H03", "region.py": "G01 G02 T01 V01", "transform.py": "E01 L01 C01",
    "zero_density_energy_estimate.py": "A02 Z01 X01", "zero_density_estimate.py": "D01 Z01 D02 V01 A02 X01",
    "zeta_large_values.py": "L02 L01 X01", "visualizations.py": "V01", "literature.py": "C01 X01", "derived.py": "X01",
}
SKIP = {"apply_huxley_subdivision", "optimize_bourgain_large_value_estimate", "check_bourgain_large_value_estimate",
        "optimize_pintz_zero_density", "approx_bourgain_ep_to_zd", "divide", "check", "_plot",
        "__hash__", "lv_zlv_to_zd_tests"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
       ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
CMPSWAP = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="],
           "in": ["not in"], "not in": ["in"], "is": ["is not"], "is not": ["is"]}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"])}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    b = src.encode()
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def put(n, new, why):
        s, e = span(n)
        out.append((n.lineno, s, e, new, why))

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name in SKIP:
                continue
            if isinstance(c, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert, ast.JoinedStr)):
                continue
            if isinstance(c, ast.If) and "__name__" in text(c.test):
                continue
            if isinstance(c, ast.arguments):
                continue
            f = fn or isinstance(c, ast.FunctionDef)
            if f:
                site(c)
            walk(c, f)

    def site(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            for w in CMPSWAP[o]:
                put(n, "%s %s %s" % (text(n.left), w, text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, ws = BIN[type(n.op)]
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str):
                return
            for w in ws:
                put(n, "%s %s %s" % (text(n.left), w, text(n.right)), "arith")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, str(n.value + 1), "const")
            if n.value != 0:
                put(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), "bool")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join("(%s)" % text(v) for v in n.values) + ")", "boolop")
            if len(n.values) > 1:
                for v in n.values:
                    put(n, "(%s)" % text(v), "drop-operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, "(%s)" % text(n.operand), "unary")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if not text(n).startswith("print"):
                put(n, "pass", "drop")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "drop")
        elif isinstance(n, ast.Break):
            put(n, "pass", "break")
        elif isinstance(n, ast.Continue):
            put(n, "pass", "continue")
            put(n, "break", "continue")
        elif isinstance(n, ast.If):
            put(n.test, "not (%s)" % text(n.test), "cond")
            put(n.test, "False", "cond")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "any", "all"):
            put(n.func, {"min": "max", "max": "min", "any": "all", "all": "any"}[n.func.id], "fn")
        elif isinstance(n, ast.Call) and "copy" in text(n.func) and len(n.args) == 1:
            put(n, text(n.args[0]), "alias")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [text(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            put(n, "%s(%s)" % (text(n.func), ", ".join(a + [(k.arg and k.arg + "=" or "**") + text(k.value) for k in n.keywords])), "swap-args")
        elif isinstance(n, ast.comprehension) and n.ifs:
            put(n.ifs[0], "True", "comp-if")
    if os.environ.get("MUT_KIND") == "state":
        for n in tree.body:
            for d in (n.body if isinstance(n, ast.ClassDef) else [n]):
                if isinstance(d, ast.FunctionDef) and d.name not in SKIP:
                    state(d, isinstance(n, ast.ClassDef), put, text, b, span)
    else:
        walk(tree, False)
    return out


def state(d, method, put, text, b, span):
    """Changes to what is kept between calls: memos that go stale, aliases instead of copies, steps in another order."""
    if not d.decorator_list and (not d.name.startswith("__") or d.name in ("__repr__", "__str__")) and any(
            isinstance(x, ast.Return) and x.value is not None for x in ast.walk(d)):
        ind = " " * d.col_offset
        old = text(d)
        new = old.replace("def " + d.name, "def _raw_" + d.name, 1)
        hidden = "self._raw_%s" % d.name
        if method:
            w = ["def %s(self, *a, **k):" % d.name, "    m = self.__dict__.setdefault('_kept_%s', {})" % d.name, "    q = repr((a, k))",
                 "    if q not in m:", "        m[q] = %s(*a, **k)" % hidden, "    return m[q]"]
            if d.args.args and d.args.args[0].arg == "self":
                put(d, new + "\n\n" + "\n".join(ind + x for x in w), "memo-self")
        elif d.args.args:
            for why, key in (("memo-first", "id(a[0]) if a else repr(k)"), ("memo-ids", "(tuple(map(id, a)), repr(k))")):
                if why == "memo-ids" or len(d.args.args) > 1:
                    w = ["_KEPT_%s = {}" % d.name, "def %s(*a, **k):" % d.name, "    q = " + key, "    if q not in _KEPT_%s:" % d.name,
                         "        _KEPT_%s[q] = (_raw_%s(*a, **k), a, k)" % (d.name, d.name), "    return _KEPT_%s[q][0]" % d.name]
                    put(d, new + "\n\n" + "\n".join(ind + x for x in w), why)
    for n in ast.walk(d):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "dict", "tuple") and len(n.args) == 1 \
                and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Subscript)):
            put(n, text(n.args[0]), "alias")
        elif isinstance(n, ast.Call) and "copy" in text(n.func) and len(n.args) == 1:
            put(n, text(n.args[0]), "alias")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None and n.slice.step is None:
            put(n, text(n.value), "alias")
        elif isinstance(n, ast.ListComp) and len(n.generators) == 1 and text(n.elt) == text(n.generators[0].target) and not n.generators[0].ifs:
            put(n, text(n.generators[0].iter), "alias")
        for body in (getattr(n, "body", None), getattr(n, "orelse", None)):
            if isinstance(body, list):
                for x, y in zip(body, body[1:]):
                    ok = (ast.Assign, ast.AugAssign, ast.Expr, ast.For, ast.If)
                    doc = isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                    if isinstance(x, ok) and isinstance(y, ok) and not doc:
                        s0, e0 = span(x)
                        s1, e1 = span(y)
                        new = b[s1:e1] + b[e0:s1] + b[s0:e0]
                        class N: pass
                        z = N()
                        z.lineno, z.col_offset, z.end_lineno, z.end_col_offset = x.lineno, x.col_offset, y.end_lineno, y.end_col_offset
                        put(z, new.decode(), "swap-steps")


def stable(root):
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    with tempfile.TemporaryDirectory() as d:
        for f in ("build", "test"):
            s = open("/opt/vp/%s.sh" % f).read().replace("/repo/", root + "/")
            open(d + "/%s.sh" % f, "w").write(s)
        e = dict(os.environ, MPLBACKEND="Agg")
        try:
            if subprocess.run(["bash", d + "/build.sh"], capture_output=True, env=e, timeout=120).returncode:
                return False
            subprocess.run(["bash", d + "/test.sh", d + "/o.json"], capture_output=True, env=e, timeout=200)
        except subprocess.TimeoutExpired:
            return False
        try:
            ok = set(json.load(open(d + "/o.json")).get("passed", []))
        except OSError:
            return False
    return all(w in ok for w in want)


ONE = r"""
import sys, os, time
sys.path.insert(0, %r)
import run
pid, seed, n, cap = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
w = run.load(pid)
p = run.Pool(w, 1)
t = time.time()
for i in range(n):
    if time.time() - t > cap:
        print("MISSED after", i); sys.exit(0)
    p.start(i, (lambda i=i: run.make_case(w, seed, i, "quick")))
    while p.live:
        for k, m in p.wait():
            v = run.norm(m)[0]
            if not m["ok"] and not v:
                v = ["harness", m.get("err", "")[-200:]]
            if v:
                print("CAUGHT case", k, str(v)[:300].replace("\n", " ")); p.kill(); sys.exit(1)
print("MISSED after", n)
""" % os.path.join(os.path.dirname(HERE), "sim")


def one(job, k, cap, log, lock):
    fn, (line, s, e, new, why), seed = job
    root = "/tmp/mutw/%d_%d" % (os.getpid(), k)
    shutil.rmtree(root, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, root])
    f = os.path.join(root, PY, fn)
    b = open(f, "rb").read()
    nb = b[:s] + new.encode() + b[e:]
    old = b[s:e].decode()
    res = {"file": fn, "line": line, "why": why, "old": old, "new": new, "s": s, "e": e}
    try:
        compile(nb, f, "exec")
        open(f, "wb").write(nb)
        if not stable(root):
            res["result"] = "tests"
        else:
            res["result"], res["by"] = "missed", {}
            for pid in COVERS[fn].split():
                env = dict(os.environ, EXPDB_REPO=root, PYTHONHASHSEED="0", MPLBACKEND="Agg")
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-B", "-c", ONE, pid, str(seed), "1500", str(cap)], capture_output=True,
                                       text=True, env=env, timeout=cap + 150)
                    o = (r.stdout.strip().split("\n") or [""])[-1] or r.stderr[-200:]
                except subprocess.TimeoutExpired:
                    o = "TIMEOUT"
                res["by"][pid] = o
                if not o.startswith("MISSED"):
                    res["result"] = "caught"
                    break
    except SyntaxError:
        res["result"] = "syntax"
    shutil.rmtree(root, ignore_errors=True)
    with lock:
        log.write(json.dumps(res) + "\n")
        log.flush()
        print(res["result"], fn, line, why, repr(old[:70]), "->", repr(new[:70]), list(res.get("by", {}).items())[-1:], flush=True)


def main():
    seed, count, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:] or sorted(COVERS)
    cap = float(os.environ.get("MUT_CAP", "60"))
    jobs = int(os.environ.get("MUT_JOBS", "8"))
    rng = random.Random(seed)
    allm = []
    for fn in files:
        for m in mutants(open(os.path.join(REPO, PY, fn)).read()):
            allm.append((fn, m, seed))
    if os.environ.get("MUT_WHY"):
        allm = [a for a in allm if a[1][4] in os.environ["MUT_WHY"].split(",")]
    print(len(allm), "possible changes", collections.Counter(a[0] for a in allm))
    if count == 0:
        return
    pick = rng.sample(allm, min(count, len(allm)))
    q = queue.Queue()
    for i, j in enumerate(pick):
        q.put((i, j))
    lock = threading.Lock()
    os.makedirs("/tmp/mutw", exist_ok=True)
    log = open("/tmp/mutw/log_%d.jsonl" % seed, "a")

    def work():
        while True:
            try:
                i, j = q.get_nowait()
            except queue.Empty:
                return
            one(j, i, cap, log, lock)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()

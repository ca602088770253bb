"""H03 provenance of derived results, R01 the reference database."""
import copy
import gc

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_console, gen_ref, gen_schedule, build_ref, ref_year, Datum, HY, RF_
import env
from env import W, REAL_OPEN
from work_lv import LVBase
from polytope import Polytope
from region import Region
import additive_energy as AE
import bound_beta as BB
import bound_mu as BM
import exponent_pair as EP
import large_values as LV
import zeta_large_values as ZL
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE
import functions as FN

INF = float("inf")


def cube(n):
    return Region.from_polytope(Polytope([[0] + [1 if j == i else 0 for j in range(n)] for i in range(n)]
                                         + [[1] + [-1 if j == i else 0 for j in range(n)] for i in range(n)]))


C3, C5 = cube(3), cube(5)         # payloads; this property never looks into them


def rf(i):
    return FN.RationalFunction([F(1), F(i)], [F(2), F(1)])


CONS = {
    "ep": lambda i, p, d: EP.derived_exp_pair(F(1, 6 + i), F(2, 3) + F(1, 100 + i), p, d),
    "mu": lambda i, p, d: BM.derived_bound_mu(F(1, 2) + F(1, 10 + i), F(1, 7), p, d),
    "beta": lambda i, p, d: BB.derived_bound_beta(FN.Affine(F(1, 2), F(i, 50), FN.Interval(F(0), F(1, 2), True, True)), p, d),
    "lv": lambda i, p, d: LV.derived_bound_LV(C3, p, d),
    "zlv": lambda i, p, d: ZL.derived_bound_zeta_LV(C3, p, d),
    "lver": lambda i, p, d: AE.derived_large_value_energy_region(AE.Large_Value_Energy_Region(C5), p, d),
    "zlver": lambda i, p, d: AE.derived_zeta_large_value_energy_region(AE.Large_Value_Energy_Region(C5), p, d),
    "energy": lambda i, p, d: AE.derived_additive_energy_estimate(C3, p, d),
    "zd": lambda i, p, d: ZD.derived_zero_density_estimate(
        ZD.Zero_Density_Estimate.from_rational_func(rf(i), FN.Interval(F(1, 2), F(1))), p, d),
    "zde": lambda i, p, d: ZE.derived_zero_density_energy_estimate(
        ZE.Zero_Density_Energy_Estimate.from_rational_func(rf(i), FN.Interval(F(1, 2), F(1))), p, d),
}
TYPE = {"ep": "Exponent pair", "mu": "Upper bound on mu", "beta": "Upper bound on beta", "lv": "Large value estimate",
        "zlv": "Zeta large value estimate", "lver": "Large value energy region", "zlver": "Zeta large value energy region",
        "energy": None, "zd": "Zero density estimate", "zde": "Zero density energy estimate"}


for _c in CONS.values():
    _c(1, "warm up the lazy imports of sympy", [])


class Provenance(LVBase):
    pid = "H03"
    cases = {"quick": 5000, "thorough": 80000}
    rule = ("seeded histories over a growing graph of up to 14 results: stated ones with every kind of reference, results made by each "
            "of the library's ten constructors of derived results from sets, lists and other results' dependencies, dependencies added "
            "later, caller containers reused afterwards, and queries for recursive dependencies, complexity, date, printed proofs and "
            "years, with interruptions, failing consoles and concurrent callers; non-trivial when a result of depth two was queried; "
            "distinct by event log")
    real = ["hypotheses.py", "reference.py", "constructors in exponent_pair.py, bound_mu.py, bound_beta.py, large_values.py, "
            "zeta_large_values.py, additive_energy.py, zero_density_estimate.py, zero_density_energy_estimate.py"]

    def generate(self, rng, tier):
        ops, n = [], 0
        npool = rng.randint(1, 3)
        lo = rng.choice([1900, 1990])

        def ref():
            return gen_ref(rng, lo=lo, hi=lo + 30)

        def sub(top=4):
            k = min(n, rng.choice([0, 1, 1, 2, 2, 3, top]))
            # favour recent results, so that graphs get deep and share members
            return sorted({rng.randrange(n) if rng.random() < 0.4 else max(0, n - 1 - int(rng.expovariate(0.7))) for _ in range(k)})

        for _ in range(rng.randint(6, 26)):
            r = rng.random()
            if n < 2 or (r < 0.14 and n < 14):
                ops.append({"op": "leaf", "ref": ref(), "data": rng.randint(0, 3)})
                n += 1
            elif r < 0.42 and n < 14:
                ops.append({"op": "derive", "con": rng.choice(sorted(CONS)), "deps": sub(),
                            "form": rng.choice(["set", "set", "list", "pool", "pool", "of"]), "pool": rng.randrange(npool),
                            "of": rng.randrange(n), "fault": gen_interrupt(rng, 60) if rng.random() < 0.15 else None})
                n += 1
            elif r < 0.50 and n < 14:
                ops.append({"op": "plain", "ref": ref(), "deps": sub(), "data": rng.randint(0, 3)})
                n += 1
            elif r < 0.58:
                ops.append({"op": "depend", "h": rng.randrange(n), "on": rng.randrange(n), "times": rng.choice([1, 1, 2])})
            elif r < 0.64:
                ops.append({"op": "pool", "pool": rng.randrange(npool), "add": rng.randrange(n), "clear": rng.random() < 0.15})
            elif r < 0.92:
                q = rng.choice(["rec", "rec", "rec", "cx", "cx", "date", "date", "print", "print", "year", "match", "desc"])
                op = {"op": "ask", "q": q, "h": rng.randrange(n) if rng.random() < 0.4 else max(0, n - 1 - int(rng.expovariate(0.6))),
                      "hs": sub(5), "year": lo + rng.randint(-1, 31), "spoil": rng.random() < 0.4, "fault": None}
                if rng.random() < 0.35:
                    op["fault"] = gen_console(rng, 8) if q == "print" and rng.random() < 0.6 else gen_interrupt(rng, 120)
                ops.append(op)
            else:
                k = rng.randint(2, 3)
                ops.append({"op": "threads", "qs": [[rng.choice(["rec", "cx", "date", "new"]),
                                                     max(0, n - 1 - int(rng.expovariate(0.6))), sub(3)] for _ in range(k)],
                            "sched": gen_schedule(rng, k, 120, rng.choice([2, 5, 12]))})
        return {"npool": npool, "ops": ops}

    def run(self, case, e):
        H, D, Y, T = [], [], [], []      # objects, direct dependencies, own year, type
        pools = [set() for _ in range(case["npool"])]
        idx = {}

        def put(h, deps, year, typ):
            idx[id(h)] = len(H)
            H.append(h)
            D.append(set(deps))
            Y.append(year)
            T.append(typ)

        def closure(i):
            out, todo = set(), [i]
            while todo:
                for j in D[todo.pop()]:
                    if j not in out:
                        out.add(j)
                        todo.append(j)
            return out

        def cx(i):
            return 1 + sum(cx(j) for j in D[i])

        def date(i):
            y = Y[i]
            return max([-1 if y == "Unknown date" else y] + [date(j) for j in D[i]])

        def depth(i):
            return 1 + max([depth(j) for j in D[i]], default=0)

        def maxyear(ids):
            ys = [Y[i] for i in ids]
            if not ys:
                return -1
            return "Unknown date" if "Unknown date" in ys else max(ys)

        def show(i):
            return "#%d %s" % (i, H[i].name)

        def direct(i, lab):
            got = sorted(idx.get(id(h), -1) for h in H[i].dependencies)
            if got != sorted(D[i]):
                e.fail("dependencies", "%s: %s depends on %s, it was given %s" % (lab, show(i), got, sorted(D[i])))
            if H[i].reference.year() != Y[i]:
                e.fail("year", "%s: %s is dated %s, expected %s" % (lab, show(i), H[i].reference.year(), Y[i]))

        def ids(store, lab):
            got = [idx.get(id(h), -1) for h in list(store)]
            if len(set(got)) != len(got) or -1 in got:
                e.fail("recursive", "%s: the dependencies list a result twice or an unknown one: %s" % (lab, got))
            return sorted(got)

        def tree(i):
            return (H[i].name, tuple(sorted(tree(j) for j in D[i])))

        def parse(out):
            # printed proofs: one line per step, indented by its depth
            stack, root = [], []
            for ln in out.split("\n"):
                if not ln.strip():
                    continue
                k = len(ln) - len(ln.lstrip("\t"))
                t = ln.strip()
                if not t.startswith("- [") or "]" not in t:
                    return None
                node = (t, [])
                del stack[k:]
                if len(stack) != k:
                    return None
                (stack[-1][1] if stack else root).append(node)
                stack.append(node)
            return root

        def fits(node, i):
            if not node[0].startswith("- [%s]" % H[i].name) or len(node[1]) != len(D[i]):
                return False
            kids = list(node[1])

            def assign(js):
                if not js:
                    return True
                for k, c in enumerate(kids):
                    if c is not None and fits(c, js[0]):
                        kids[k] = None
                        if assign(js[1:]):
                            return True
                        kids[k] = c
                return False

            return assign(sorted(D[i]))

        for n, op in enumerate(case["ops"]):
            o = op["op"]
            lab = "%s#%d" % (o, n)
            N = len(H)
            if o == "leaf":
                h = HY.Hypothesis("Result %d" % N, "Exponent pair", Datum(op["data"]), "See there", build_ref(op["ref"]))
                put(h, [], ref_year(op["ref"]), "Exponent pair")
            elif o == "plain":
                h = HY.Hypothesis("Result %d" % N, "Upper bound on mu", Datum(op["data"]), "Combine", build_ref(op["ref"]))
                for j in op["deps"]:
                    if j < N:
                        self.ask(e, lambda: h.add_dependency(H[j]), None, lab)
                put(h, [j for j in op["deps"] if j < N], ref_year(op["ref"]), "Upper bound on mu")
            elif o == "derive":
                js = [j for j in op["deps"] if j < N]
                if op["form"] == "pool":
                    arg = pools[op["pool"]]
                    arg.update(H[j] for j in js)
                    js = sorted(idx[id(h)] for h in arg)
                elif op["form"] == "of" and op["of"] < N:
                    arg = H[op["of"]].dependencies
                    js = sorted(D[op["of"]])
                elif op["form"] == "list":
                    arg = [H[j] for j in js]
                else:
                    arg = {H[j] for j in js}
                h = self.ask(e, lambda: CONS[op["con"]](N, "Proof %d" % N, arg), op["fault"], lab)
                if not h.reference.is_derived():
                    e.fail("reference", "%s: a derived result refers to %s" % (lab, h.reference.label))
                if h.proof != "Proof %d" % N:
                    e.fail("proof", "%s: the proof became %r" % (lab, h.proof))
                if TYPE[op["con"]] and h.hypothesis_type != TYPE[op["con"]]:
                    e.fail("type", "%s: made a %r" % (lab, h.hypothesis_type))
                put(h, js, maxyear(js), h.hypothesis_type)
                direct(N, lab)
                e.cover("derive", op["con"], op["form"], len(js), str(Y[-1])[:3])
            elif o == "depend":
                i, j = op["h"], op["on"]
                if i >= N or j >= N or i == j or i in closure(j):
                    continue
                for _ in range(op["times"]):
                    e.must(lambda: H[i].add_dependency(H[j]), lab)
                D[i].add(j)
            elif o == "pool":
                if op["clear"]:
                    pools[op["pool"]].clear()
                elif op["add"] < N:
                    pools[op["pool"]].add(H[op["add"]])
            elif o == "ask":
                i = op["h"]
                if i >= N:
                    continue
                q = op["q"]
                if q == "rec":
                    st = self.ask(e, lambda: H[i].recursive_dependencies(), op["fault"], lab)
                    got = ids(st, lab)
                    if got != sorted(closure(i)):
                        e.fail("recursive", "%s: %s rests on %s, reported are %s" % (lab, show(i), sorted(closure(i)), got))
                    e.log("order", [idx[id(h)] for h in st])
                    if op["spoil"]:              # the caller owns the answer
                        st.add_hypotheses([H[j] for j in op["hs"] if j < N])
                elif q == "cx":
                    got = self.ask(e, lambda: H[i].proof_complexity(), op["fault"], lab)
                    if got != cx(i):
                        e.fail("complexity", "%s: %s has %s steps, reported %s" % (lab, show(i), cx(i), got))
                elif q == "date":
                    got = self.ask(e, lambda: H[i].proof_date(), op["fault"], lab)
                    if got != date(i):
                        e.fail("date", "%s: the proof of %s dates from %s, reported %s" % (lab, show(i), date(i), got))
                elif q == "print":
                    r = e.call(lambda: H[i].recursively_list_proofs(), op["fault"], lab)
                    if r.kind == "fault":
                        r = e.must(lambda: H[i].recursively_list_proofs(), lab + "-retry")
                    elif not r.ok:
                        e.must(lambda: H[i].recursively_list_proofs(), lab + "-again")
                    root = parse(r.out)
                    if root is None or len(root) != 1 or not fits(root[0], i):
                        e.fail("printed", "%s: the printed proof of %s with dependencies %s is %r" % (
                            lab, show(i), sorted(D[i]), r.out[:400]))
                elif q == "year":
                    js = [j for j in op["hs"] if j < N]
                    got = self.ask(e, lambda: RF_.Reference.max_year([H[j].reference for j in js]), op["fault"], lab)
                    if got != maxyear(js):
                        e.fail("year", "%s: the latest of the years %s is reported as %s" % (lab, [Y[j] for j in js], got))
                elif q == "match":
                    got = self.ask(e, lambda: H[i].is_match(T[i], op["year"]), op["fault"], lab)
                    lb = H[i].reference.label
                    w = lb in ("Derived", "Classical") or (lb != "Conjectured" and Y[i] != "Unknown date" and Y[i] <= op["year"])
                    if bool(got) != w:
                        e.fail("match", "%s: %s dated %s matches year %s: %s" % (lab, show(i), Y[i], op["year"], got))
                else:
                    t = self.ask(e, lambda: H[i].desc_with_proof(), op["fault"], lab)
                    if H[i].name not in t or str(H[i].data) not in t or H[i].proof not in t:
                        e.fail("desc", "%s: the description of %s is %r" % (lab, show(i), t[:200]))
                dp = depth(i)
                e.cover("ask", q, min(dp, 4), len(closure(i)), len(D[i]))
                if dp >= 3:
                    e.probe("nontrivial")
            elif o == "threads":
                fns, want = [], []
                new = []
                for q, i, js in op["qs"]:
                    i, js = min(i, N - 1), [j for j in js if j < N]
                    if q == "rec":
                        fns.append(lambda i=i: sorted(idx[id(h)] for h in H[i].recursive_dependencies()))
                        want.append(sorted(closure(i)))
                    elif q == "cx":
                        fns.append(lambda i=i: H[i].proof_complexity())
                        want.append(cx(i))
                    elif q == "date":
                        fns.append(lambda i=i: H[i].proof_date())
                        want.append(date(i))
                    else:
                        fns.append(lambda js=js: EP.derived_exp_pair(F(1, 6), F(2, 3), "Proof", {H[j] for j in js}))
                        want.append(("new", js))
                rs = e.threads(fns, op["sched"])
                for r, w in zip(rs, want):
                    if not r.ok:
                        e.fail("concurrent", "%s: a concurrent query raised %s: %s" % (lab, type(r.exc).__name__, r.exc))
                    if isinstance(w, tuple):
                        new.append((r.value, w[1]))
                    elif r.value != w:
                        e.fail("concurrent", "%s: a concurrent query gave %s, expected %s" % (lab, r.value, w))
                for h, js in new:
                    put(h, js, maxyear(js), "Exponent pair")
                    direct(len(H) - 1, lab)
            for i in range(len(H)):
                direct(i, lab)
        # at the end every answer reflects the final graph
        for i in range(len(H)):
            if cx(i) > 4000:
                continue
            r = e.must(lambda: (ids(H[i].recursive_dependencies(), "end"), H[i].proof_complexity(), H[i].proof_date()), "end")
            w = (sorted(closure(i)), cx(i), date(i))
            if r.value != w:
                e.fail("final", "at the end %s is reported with dependencies, steps, date %s, expected %s" % (show(i), r.value, w))


# =====================================================================  R01
AUTH = ["Huxley", "Bourgain", "Heath-Brown", "Guth", "Maynard", "{\\'O} Riordan", "van der Corput", "Anderson", "Brandes", "Matom{\\\"a}ki", "Ivi{\\'c}"]
KEYS = ["title", "journal", "volume", "note", "publisher", "pages", "doi"]


def gen_entry(rng, i):
    d = {"label": "%s_%d" % (rng.choice(["a", "bourgain", "Huxley-x", "Gu:M"]), i), "type": rng.choice(["article", "book", "misc", "incollection"]),
         "f": {}, "style": rng.getrandbits(20)}
    if rng.random() < 0.85:
        d["a"] = [[rng.choice(AUTH), rng.choice(["M. N.", "Jean", "D. R.", "J.-P."]), rng.random() < 0.6]
                  for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.9:
        d["y"] = rng.choice([1922, 1940, 1972, 1972, 1995, 2001, 2024])
    for k in rng.sample(KEYS, rng.randint(0, 4)):
        d["f"][k] = rng.choice(["Zeros of {$\\zeta(s)$}", "A {D}IVISOR problem", "On {primes}, gaps, and {{sums}}", "72", "1--54",
                                "see f(x) = {x}", "contact {a@b.org}", "x=y", "10.1112/plms/s3-72.2.261", "short\n    intervals"])
    return d


def render(d, rng):
    """Text of a BibTeX entry in one of the layouts that the format allows."""
    sp = lambda: rng.choice(["", " ", "  "])  # noqa: E731
    eq = lambda: rng.choice([" = ", "=", " =", "=\n      "])  # noqa: E731
    fs = []

    def val(v, quoted=True):
        r = rng.random()
        if r < 0.12 and quoted and "{" not in v and '"' not in v and "," not in v and "=" not in v and "@" not in v:
            return '"%s"' % v
        return "{%s}" % v

    if "a" in d:
        names = []
        for last, first, comma in d["a"]:
            plain = "{" not in last and " " not in last
            names.append("%s, %s" % (last, first) if comma or not plain else "%s %s" % (first.split(" ")[0], last))
        sep = rng.choice([" and ", " and\n       ", "\n  and "])
        fs.append((rng.choice(["author", "AUTHOR", "Author"]), "{%s}" % sep.join(names)))
    if "y" in d:
        y = str(d["y"])
        r = rng.random()
        if r > 0.9:
            y += "/%02d" % ((d["y"] + 1) % 100)
        fs.append((rng.choice(["year", "YEAR"]), y if r < 0.1 else '"%s"' % y if r < 0.2 else "{%s}" % y))
    for k, v in d["f"].items():
        fs.append((rng.choice([k, k.upper()]), val(v)))
    rng.shuffle(fs)
    out = "@%s%s{%s" % (d["type"] if rng.random() < 0.5 else d["type"].upper(), sp(), d["label"])
    for k, v in fs:
        out += "," + rng.choice(["\n\t", "\n    ", " "]) + k + eq() + v
    return out + rng.choice(["\n}", ",\n}", "}", " ,}"])


def last_name(a):
    return a[0]


def want_entry(d):
    w = {k: " ".join(v.split("\n")).replace("\n", " ") for k, v in d["f"].items()}
    out = {}
    for k, v in w.items():
        out[k] = "".join(v)
    if "a" in d:
        out["author"] = "--".join(last_name(a) for a in d["a"])
    if "y" in d:
        out["year"] = d["y"]
    return out


def squash(s):
    return " ".join(str(s).replace("{", "").replace("}", "").split())


def strip_braces_outer(v):
    return v


class BibParser:
    """A small independent reader of BibTeX entries (label, type, fields)."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def group(self):
        d, j = 0, self.i
        while True:
            c = self.s[self.i]
            if c == "{":
                d += 1
            elif c == "}":
                d -= 1
            self.i += 1
            if d == 0:
                return self.s[j + 1:self.i - 1]

    def quoted(self):
        d, self.i = 0, self.i + 1
        j = self.i
        while not (self.s[self.i] == '"' and d == 0):
            d += {"{": 1, "}": -1}.get(self.s[self.i], 0)
            self.i += 1
        self.i += 1
        return self.s[j:self.i - 1]

    def entries(self):
        out = {}
        while True:
            self.i = self.s.find("@", self.i)
            if self.i < 0:
                return out
            j = self.s.index("{", self.i)
            typ = self.s[self.i + 1:j].strip().lower()
            self.i = j + 1
            j = min(x for x in (self.s.find(",", self.i), self.s.find("}", self.i)) if x >= 0)
            label = self.s[self.i:j].strip()
            self.i = j
            f = {}
            while True:
                while self.s[self.i].isspace() or self.s[self.i] == ",":
                    self.i += 1
                if self.s[self.i] == "}":
                    self.i += 1
                    break
                j = self.s.index("=", self.i)
                k = self.s[self.i:j].strip().lower()
                self.i = j + 1
                self.ws()
                c = self.s[self.i]
                if c == "{":
                    v = self.group()
                elif c == '"':
                    v = self.quoted()
                else:
                    j = self.i
                    while self.s[self.i] not in ",}":
                        self.i += 1
                    v = self.s[j:self.i].strip()
                f[k] = v
            out[label] = (typ, f)


BIB = env.REPO + "/blueprint/src/references.bib"
_REAL = []


def real_bib():
    if not _REAL:
        with REAL_OPEN(BIB) as fh:
            t = fh.read()
        _REAL.append(t)
        _REAL.append(BibParser(t).entries())
    return _REAL


class References(LVBase):
    pid = "R01"
    cases = {"quick": 5000, "thorough": 60000}
    rule = ("seeded histories of loading, looking up and searching over 1-2 reference managers whose BibTeX files live on a simulated disk "
            "(generated files in all layouts with nested braces, quoted and bare values and text between entries; sometimes the shipped "
            "file), rewritten between loads, with open, read, mid-file and close errors, short reads, interruptions and concurrent "
            "callers; non-trivial when a load failed and was repeated or a search found something; distinct by event log")
    real = ["reference.py"]
    stubs = ["disk", "console", "clock", "matplotlib"]

    def generate(self, rng, tier):
        nf = rng.randint(1, 3)
        real = rng.random() < 0.02
        files = []
        k = 0
        for _ in range(nf):
            es = []
            for _ in range(rng.randint(0, 7)):
                # a later version of a file often restates an earlier entry
                i = rng.randrange(k) if k and rng.random() < 0.3 else k
                k = max(k, i + 1)
                es.append(gen_entry(rng, i))
            seen = set()
            es = [x for x in es if not (x["label"] in seen or seen.add(x["label"]))]
            files.append({"es": es, "r": rng.getrandbits(32), "text": rng.choice([0, 0, 1, 2])})
        nm = rng.randint(1, 2)
        ops = [{"op": "load", "m": 0, "fault": None}] if rng.random() < 0.5 else []
        for _ in range(rng.randint(3, 14)):
            m = rng.randrange(nm)
            r = rng.random()
            if r < 0.3:
                f = None
                if rng.random() < 0.6:
                    sp = rng.choice([{"kind": "open_error", "nth": 1, "errno": rng.choice([2, 13, 24])},
                                     {"kind": "read_error", "nth": rng.choice([1, 1, 2, 3, 6]), "errno": 5},
                                     {"kind": "mid", "fail_after": rng.choice([1, 20, 60, 150, 400, 1200]), "errno": 5},
                                     {"kind": "close_error"}, {"kind": "short", "short": rng.choice([1, 7, 50])}])
                    f = {"kind": "disk", "spec": sp} if rng.random() < 0.65 else gen_interrupt(rng, 200 + 40 * k)
                ops.append({"op": "load", "m": m, "fault": f})
            elif r < 0.38:
                ops.append({"op": "rewrite", "m": m, "f": rng.randrange(nf)})
            elif r < 0.58:
                ops.append({"op": "get", "m": m, "i": rng.randrange(k + 1), "x": rng.random() < 0.15,
                            "fault": gen_interrupt(rng, 4) if rng.random() < 0.1 else None})
            elif r < 0.94:
                ops.append({"op": "find", "m": m, "a": rng.choice([None, "Huxley", "Bourgain", "Guth", "May", "Corput", "Nobody", "Unknown"]),
                            "y": rng.choice([None, None, 1972, 1995, 2024, 1900]), "kw": rng.random() < 0.5,
                            "fault": gen_interrupt(rng, 30) if rng.random() < 0.2 else None})
            else:
                ops.append({"op": "threads", "m": m, "sched": gen_schedule(rng, 2, 400, rng.choice([5, 20, 60])), "i": rng.randrange(k + 1)})
        if real:
            ops = [{"op": "real", "fault": gen_interrupt(rng, 20000) if rng.random() < 0.5 else None}] + ops[:4]
        return {"files": files, "nm": nm, "ops": ops}

    def run(self, case, e):
        texts, wants = [], []
        for f in case["files"]:
            rng = random_of(f["r"])
            t = "" if f["text"] == 0 else rng.choice(["\n\n", "%% bibliography of zeros, primes\n", "Prepared by hand: see notes\n\n"])
            w = {}
            for d in f["es"]:
                t += render(d, rng)
                t += rng.choice(["\n\n", "\n", "\r\n"]) if f["text"] < 2 else rng.choice(["\n\n% next\n", "\nremark, see below\n", "\n"])
                w[d["label"]] = (d["type"], want_entry(d))
            texts.append(t)
            wants.append(w)
        labels = sorted({l for w in wants for l in w})
        M, cur, model = [], [], []
        for m in range(case["nm"]):
            p = "/simdisk/refs%d.bib" % m
            W.disk[p] = texts[m % len(texts)]
            M.append(RF_.Reference_Manager(p))
            cur.append(m % len(texts))
            model.append({})

        def same(ref, w):
            typ, fs = w
            if ref.reftype.strip().lower() != typ:
                return "type %r" % ref.reftype
            for k, v in fs.items():
                g = ref.entries.get(k)
                if k == "year":
                    if g != v or isinstance(g, str) or ref.year() != v:
                        return "year %r, expected %r" % (g, v)
                elif g is None or " ".join(str(g).split()) != " ".join(v.split()):
                    return "%s %r, expected %r" % (k, g, v)
            if "year" not in fs and ref.year() != "Unknown date":
                return "year %r, expected none" % ref.year()
            if "author" not in fs and ref.author() != "Unknown author":
                return "author %r, expected none" % ref.author()
            for k in ref.entries:
                if k not in fs:
                    return "a field %r of value %r" % (k, ref.entries[k])
            return None

        def check(m, lab):
            got = {r.label: r for r in e.must(lambda: M[m].find_all(), lab + "-all").value}
            if sorted(got) != sorted(model[m]):
                e.fail("labels", "%s: the manager has %s, the file had %s" % (lab, sorted(got), sorted(model[m])))
            for l, w in model[m].items():
                d = same(got[l], w)
                if d:
                    e.fail("entry", "%s: the entry %s has %s" % (lab, l, d))

        for n, op in enumerate(case["ops"]):
            o = op["op"]
            lab = "%s#%d" % (o, n)
            m = op.get("m", 0)
            if o == "load":
                new = wants[cur[m]]
                r = e.call(lambda: M[m].load(), op["fault"], lab)
                err = r.exc
                r.exc = None
                if err is not None:
                    err.__traceback__ = None
                err = None
                if W.open_handles > 0:
                    gc.collect()
                if W.open_handles > 0:
                    e.fail("leak", "%s: %d files stay open" % (lab, W.open_handles))
                if r.kind == "fault":
                    # what is there now is a mixture of the old and the new entries, each of them whole
                    got = {x.label: x for x in e.must(lambda: M[m].find_all(), lab + "-partial").value}
                    for l, x in got.items():
                        c = [w[l] for w in (model[m], new) if l in w]
                        if not any(same(x, w) is None for w in c):
                            e.fail("torn", "%s: after a failed load the entry %s has %s" % (lab, l, same(x, c[0]) if c else "no source"))
                    for l in model[m]:
                        if l not in got:
                            e.fail("lost", "%s: a failed load lost the entry %s" % (lab, l))
                    e.probe("failed_load")
                    e.probe("nontrivial")
                    e.must(lambda: M[m].load(), lab + "-retry")
                elif not r.ok:
                    e.must(lambda: M[m].load(), lab + "-again")
                    e.fail("unstable", "%s raised once and then returned" % lab)
                model[m] = dict(model[m], **new)
                check(m, lab)
                e.cover("load", len(new), len(model[m]), (op["fault"] or {}).get("kind"))
            elif o == "rewrite":
                cur[m] = op["f"] % len(texts)
                W.disk["/simdisk/refs%d.bib" % m] = texts[cur[m]]
                check(m, lab)
            elif o == "get":
                l = labels[op["i"] % len(labels)] if labels else "none"
                if op["x"]:
                    l += "x"
                r = e.call(lambda: M[m].get(l), op["fault"], lab)
                if r.kind == "fault":
                    r = e.call(lambda: M[m].get(l), None, lab + "-retry")
                if l in model[m]:
                    if not r.ok or r.value is None or r.value.label != l:
                        e.fail("get", "%s: looking up %s gave %s" % (lab, l, r.value if r.ok else type(r.exc).__name__))
                    d = same(r.value, model[m][l])
                    if d:
                        e.fail("entry", "%s: the entry %s has %s" % (lab, l, d))
                    repr(r.value)
                elif r.ok or not isinstance(r.exc, ValueError):
                    e.fail("get", "%s: looking up %s, which is not there, gave %s" % (lab, l, r.value if r.ok else type(r.exc).__name__))
                e.cover("get", l in model[m], len(model[m]))
            elif o == "find":
                kw = {}
                if op["a"]:
                    kw["author"] = op["a"]
                if op["y"]:
                    kw["year"] = op["y"]
                w = sorted(l for l, (t, f) in model[m].items()
                           if (not op["a"] or op["a"] in f.get("author", "")) and (not op["y"] or f.get("year") == op["y"]))
                args = lambda: M[m].find_all(**kw)  # noqa: E731
                if not op["kw"]:
                    args = lambda: M[m].find_all(op["a"] or "Any", op["y"] or "Any")  # noqa: E731
                got = self.ask(e, args, op["fault"], lab)
                if sorted(r.label for r in got) != w:
                    e.fail("find", "%s: searching for %s found %s, expected %s" % (lab, kw, sorted(r.label for r in got), w))
                e.cover("find", sorted(kw), len(w), len(model[m]))
                if w:
                    e.probe("nontrivial")
                if isinstance(got, list):
                    got.clear()
            elif o == "threads":
                new = wants[cur[m]]
                l = labels[op["i"] % len(labels)] if labels else "none"

                def look(m=m, l=l):
                    try:
                        return M[m].get(l)
                    except ValueError:
                        return None

                rs = e.threads([lambda: M[m].load(), look], op["sched"])
                for r in rs:
                    if not r.ok:
                        e.fail("concurrent", "%s: raised %s: %s" % (lab, type(r.exc).__name__, r.exc))
                x = rs[1].value
                c = [w[l] for w in (model[m], new) if l in w]
                if x is not None and not any(same(x, w) is None for w in c):
                    e.fail("torn", "%s: during a load the entry %s has %s" % (lab, l, same(x, c[0]) if c else "no source"))
                if x is None and l in model[m]:
                    e.fail("lost", "%s: during a load the entry %s is missing" % (lab, l))
                model[m] = dict(model[m], **new)
                check(m, lab)
            elif o == "real":
                t, ent = real_bib()
                W.disk["/simdisk/real.bib"] = t
                R = RF_.Reference_Manager("/simdisk/real.bib")
                self.ask(e, lambda: R.load(), op["fault"], lab)
                got = {r.label: r for r in R.find_all()}
                if sorted(got) != sorted(ent):
                    e.fail("labels", "%s: the shipped file: labels %s differ" % (lab, sorted(set(got) ^ set(ent))[:6]))
                for l, (typ, f) in ent.items():
                    y = f.get("year", "").strip("{} ")
                    y = int(y) if y.isdigit() else None
                    g = got[l].year()
                    if y is not None and g != y:
                        e.fail("entry", "%s: the shipped entry %s has year %r, expected %r" % (lab, l, g, y))
                    if "author" in f:
                        w = [a.strip() for a in " ".join(f["author"].split()).split(" and ")]
                        w = "--".join(a.split(",")[0] if "," in a else a.split(" ")[-1] for a in w)
                        if squash(got[l].author()) != squash(w):
                            e.fail("entry", "%s: the shipped entry %s has author %r, expected %r" % (lab, l, got[l].author(), w))
                    for k in ("title", "journal"):
                        if k in f and squash(got[l].entries.get(k, "")) != squash(f[k]):
                            e.fail("entry", "%s: the shipped entry %s has %s %r, expected %r" % (lab, l, k, got[l].entries.get(k), f[k]))
                e.probe("nontrivial")
                e.probe("shipped_file")
        for m in range(case["nm"]):
            check(m, "end")


def random_of(r):
    import random

    return random.Random(r)

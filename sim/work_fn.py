"""F01 piecewise affine functions of several variables, F02 rational functions and intervals."""
import copy
import random

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_solver, fr, un
import env  # noqa: F401
import sympy
from models_poly import MP, ev, cell_points
from work_poly import fmt, gen_poly, small
from work_lv import LVBase
from work_zd import num, same, fl
import polytope as PT
import functions as FN
import polynomial as PN

RFN = FN.RationalFunction


# ------------------------------------------------------------- polynomials
def ptrim(p):
    p = list(p)
    while len(p) > 1 and p[0] == 0:
        p.pop(0)
    return p or [F(0)]


def pval(p, x):
    v = 0 * x
    for c in p:
        v = v * x + c
    return v


def padd(a, b, s=1):
    n = max(len(a), len(b))
    a, b = [F(0)] * (n - len(a)) + list(a), [F(0)] * (n - len(b)) + list(b)
    return ptrim([x + s * y for x, y in zip(a, b)])


def pmul(a, b):
    out = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return ptrim(out)


def pdiff(p):
    n = len(p) - 1
    return ptrim([c * (n - i) for i, c in enumerate(p[:-1])]) if n else [F(0)]


def pmod(a, b):
    a = ptrim(a)
    while len(a) >= len(b) and any(a):
        q = a[0] / b[0]
        a = ptrim([x - q * y for x, y in zip(a, list(b) + [F(0)] * (len(a) - len(b)))][1:] or [F(0)])
    return a


def pgcd(a, b):
    a, b = ptrim(a), ptrim(b)
    while any(b):
        a, b = b, (pmod(a, b) if len(b) > 1 else [F(0)])
    return [c / a[0] for c in a] if any(a) else a


def squarefree(p):
    p = ptrim(p)
    if len(p) <= 2:
        return p
    g = pgcd(p, pdiff(p))
    if len(g) <= 1:
        return p
    q, r = [], list(p)
    while len(r) >= len(g):
        c = r[0] / g[0]
        q.append(c)
        r = [x - c * y for x, y in zip(r, g + [F(0)] * (len(r) - len(g)))][1:]
    return ptrim(q)


def sturm(p):
    s = [ptrim(p), pdiff(p)]
    while len(s[-1]) > 1 or s[-1][0] != 0:
        r = pmod(s[-2], s[-1]) if len(s[-1]) > 1 else [F(0)]
        if not any(r):
            break
        s.append([-c for c in r])
    return s


def changes(s, x):
    v = [pval(p, x) for p in s]
    v = [c for c in v if c != 0]
    return sum(1 for a, b in zip(v, v[1:]) if (a > 0) != (b > 0))


def real_roots(p, lo, hi):
    """The distinct real roots in [lo, hi]: exact when rational bisection meets them, else to 1e-16."""
    p = squarefree(p)
    if len(p) == 1:
        return []
    s = sturm(p)
    out = []

    def rec(a, b):          # roots in the half-open interval (a, b]
        n = changes(s, a) - changes(s, b)
        if n == 0:
            return
        if pval(p, b) == 0:
            out.append(b)
            n -= 1
            if n == 0:
                return
        if n == 1 and b - a < F(1, 10 ** 18):
            out.append((a + b) / 2)
            return
        m = (a + b) / 2
        if pval(p, b) == 0:
            # the root at b is noted already
            e = b - (b - a) * F(1, 10 ** 6)
            while changes(s, e) - changes(s, b) > 1:
                e = b - (b - e) / 1000
            rec(a, e)
            return
        rec(a, m)
        rec(m, b)
    if pval(p, lo) == 0:
        out.append(lo)
    rec(lo, hi)
    return sorted(set(out))


class Q:
    """A rational function as two exact polynomials."""

    def __init__(self, n, d):
        self.n, self.d = ptrim(n), ptrim(d)

    def at(self, x):
        d = pval(self.d, x)
        return None if d == 0 else pval(self.n, x) / d

    def op(self, o, k):
        if k == "add":
            return Q(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))
        if k == "sub":
            return Q(padd(pmul(self.n, o.d), pmul(o.n, self.d), -1), pmul(self.d, o.d))
        if k == "mul":
            return Q(pmul(self.n, o.n), pmul(self.d, o.d))
        return Q(pmul(self.n, o.d), pmul(self.d, o.n))


def gen_rat(rng):
    k = rng.choice(["rf", "rf", "rf", "const", "poly", "text"])
    c = lambda: F(rng.randint(-6, 6), rng.choice([1, 1, 1, 2, 3, 5]))       # noqa: E731
    n = [c() for _ in range(rng.choice([1, 2, 2, 3]))]
    d = [c() for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.3:      # known rational roots
        r = [c(), c()]
        n = pmul([F(1), -r[0]], [F(1), -r[1]])
        if rng.random() < 0.3:
            n = pmul(n, [F(1), -r[0]])
    if rng.random() < 0.2:      # three or four chosen stationary points
        k, n = "poly", [c()]
        for r in rng.sample([F(-3), F(-2), F(-1), F(-1, 2), F(0), F(1, 2), F(1), F(3, 2), F(2), F(3)], rng.choice([3, 3, 4])):
            n = pmul(n if any(n) else [F(1)], [F(1), -r])
        n = [v / (len(n) - i) for i, v in enumerate(n)] + [c()]
    if not any(d):
        d = [F(1)]
    if k in ("const", "poly"):
        d = [F(1)] if rng.random() < 0.7 else [F(rng.choice([2, -3, 5]))]
    if k == "const":
        n = [c()]
    return {"k": k, "n": [fr(v) for v in n], "d": [fr(v) for v in d]}


def poly_text(p):
    n = len(p) - 1
    return " + ".join("(%s)*x**%d" % (c, n - i) if n - i else "(%s)" % c for i, c in enumerate(p))


def build_rat(s):
    n, d = [un(v) for v in s["n"]], [un(v) for v in s["d"]]
    m = Q(n, d)
    if s["k"] == "text":
        return RFN.parse("(%s)/(%s)" % (poly_text(n), poly_text(d))), m
    if len(m.d) == 1 and d == [F(1)]:
        return RFN(list(n)), m
    return RFN(list(n), list(d)), m


GRID = [F(k, 7) for k in range(-36, 37, 3)] + [F(1, 2), F(3, 4), F(1)]


class RationalFunctions(LVBase):
    pid = "F02"
    cases = {"quick": 900, "thorough": 20000}
    real = ["functions.py (RationalFunction, SympyHelper, Interval)", "polynomial.py", "sympy"]
    stubs = ["console", "matplotlib", "clock"]
    rule = ("seeded histories of arithmetic, evaluation, root finding, intersection and extremum queries over a growing pool of rational "
            "functions and intervals, with interruptions and parser failures followed by a retry; non-trivial when a query has a root, "
            "an intersection or an inner extremum; distinct by event log")

    def generate(self, rng, tier):
        ops = []
        for _ in range(rng.randint(2, 6)):
            o = rng.choice(["arith", "arith", "arith", "eq", "inter", "inter", "roots", "roots", "ext", "ext", "itv", "parse", "poly"])
            a, b = sorted(rng.sample([F(-4), F(-2), F(-1), F(0), F(1, 2), F(3, 4), F(1), F(2), F(5), F(5, 2), F(-1, 3)], 2))
            op = {"op": o, "i": rng.randrange(8), "j": rng.randrange(8), "k": rng.choice(["add", "sub", "mul", "div"]),
                  "m": rng.random() < 0.5, "num": fr(F(rng.choice([2, -3, 1, 5, 0]), rng.choice([1, 2, 3]))) if rng.random() < 0.4 else None,
                  "int": rng.random() < 0.5, "a": fr(a), "b": fr(b), "inc": [rng.random() < 0.6, rng.random() < 0.5], "max": rng.random() < 0.5,
                  "r": rng.getrandbits(32), "fault": gen_interrupt(rng, 4000) if rng.random() < 0.25 else None}
            if o == "parse" and rng.random() < 0.4:
                op["fault"] = gen_solver(rng, ["parse_expr"], 2)
            ops.append(op)
        return {"fns": [gen_rat(rng) for _ in range(rng.randint(2, 4))], "ops": ops}

    def run(self, case, e):
        pool = [build_rat(s) for s in case["fns"]]
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            old = [(str(f.num), str(f.den)) for f, _ in pool]
            getattr(self, "op_" + op["op"])(e, op, pool, case, random.Random(op["r"]), lab)
            if old != [(str(f.num), str(f.den)) for f, _ in pool[:len(old)]]:
                e.fail("inputs-changed", "%s changed a function" % lab)
            e.cover(op["op"], op["k"] if op["op"] == "arith" else "", len(pool))

    def agree_fn(self, e, f, m, lab):
        for x in GRID:
            w = m.at(x)
            if w is not None and (fl(f.at(x)) is None or not same(num(f.at(x)), w)):
                e.fail("value", "%s: at %s the function is %s, not %s" % (lab, x, f.at(x), w))

    def itv(self, op):
        a, b = un(op["a"]), un(op["b"])
        return FN.Interval(a, b, *op["inc"]), a, b

    def op_arith(self, e, op, pool, case, rng, lab):
        (f, p), (g, q) = pool[op["i"] % len(pool)], pool[op["j"] % len(pool)]
        if op["num"] is not None:
            v = un(op["num"])
            q = Q([v], [F(1)])
            g = int(v) if op["int"] and v.denominator == 1 else v
        if op["k"] == "div" and not any(q.n) or len(p.n) + len(p.d) + len(q.n) + len(q.d) > 16:
            return
        if op["m"]:
            fn = {"add": lambda: f + g, "sub": lambda: f - g, "mul": lambda: f * g, "div": lambda: f / g}[op["k"]]
        else:
            fn = {"add": lambda: f.add(g), "sub": lambda: f.subtract(g), "mul": lambda: f.mul(g), "div": lambda: f.div(g)}[op["k"]]
        r = self.ask(e, fn, op["fault"], lab)
        m = p.op(q, op["k"])
        if not isinstance(r, RFN):
            e.fail("value", "%s: the result is a %s" % (lab, type(r).__name__))
        self.agree_fn(e, r, m, lab + "-" + op["k"])
        e.log(lab, op["k"], [str(m.at(x)) for x in GRID[:4]])
        pool.append((r, m))

    def op_parse(self, e, op, pool, case, rng, lab):
        s = dict(case["fns"][op["i"] % len(case["fns"])], k="text")
        r = self.ask(e, lambda: build_rat(s), op["fault"], lab)
        self.agree_fn(e, r[0], r[1], lab)
        pool.append(r)

    def op_eq(self, e, op, pool, case, rng, lab):
        (f, p), (g, q) = pool[op["i"] % len(pool)], pool[op["j"] % len(pool)]
        r = self.ask(e, lambda: f == g, op["fault"], lab)
        if bool(r) != (padd(pmul(p.n, q.d), pmul(q.n, p.d), -1) == [F(0)]):
            e.fail("equality", "%s: %s == %s gives %s" % (lab, f, g, r))

    def compare_roots(self, e, lab, got, poly, ok, itv, a, b):
        """got lists exactly the roots of poly in the interval; ok(x): the root must be listed, else it may be."""
        want = [x for x in real_roots(poly, a, b) if itv.contains(x)]
        edge = [x for x in (a, b) if pval(poly, x) == 0]
        vals = [fl(v) for v in got]
        if None in vals:
            e.fail("roots", "%s: %s is no real number" % (lab, got))
        for v in vals:
            if not any(abs(float(x) - v) < 1e-9 * (1 + abs(v)) for x in want):
                e.fail("roots", "%s: %s is listed, the solutions in %s are %s" % (lab, v, itv, [float(x) for x in want]))
        for x in want:
            if ok(x) and not any(abs(float(x) - v) < 1e-9 * (1 + abs(v)) for v in vals):
                e.fail("roots", "%s: the solution %s in %s is missing from %s" % (lab, float(x), itv, vals))
        if want:
            e.probe("nontrivial")
        if edge:
            e.probe("root_at_limit")
        e.log(lab, [round(float(x), 9) for x in want])

    def op_roots(self, e, op, pool, case, rng, lab):
        f, p = pool[op["i"] % len(pool)]
        itv, a, b = self.itv(op)
        got = self.ask(e, lambda: f.roots(itv), op["fault"], lab)
        if not any(p.n):
            return          # every point is a root
        self.compare_roots(e, lab, got, p.n, lambda x: abs(float(pval(p.d, x))) > 1e-9, itv, a, b)

    def op_inter(self, e, op, pool, case, rng, lab):
        (f, p), (g, q) = pool[op["i"] % len(pool)], pool[op["j"] % len(pool)]
        itv, a, b = self.itv(op)
        cross = padd(pmul(p.n, q.d), pmul(q.n, p.d), -1)
        got = self.ask(e, lambda: f.intersections(g, itv), op["fault"], lab)
        if not any(cross):
            return          # the same function
        self.compare_roots(e, lab, got, cross, lambda x: abs(float(pval(p.d, x))) > 1e-9 and abs(float(pval(q.d, x))) > 1e-9, itv, a, b)

    def op_ext(self, e, op, pool, case, rng, lab):
        f, p = pool[op["i"] % len(pool)]
        itv, a, b = self.itv(op)
        if real_roots(p.d, a, b) or len(p.n) + len(p.d) > 9:
            return          # a pole: no extremum to speak of
        big = op["max"]
        r = self.ask(e, (lambda: f.maximise(itv)) if big else (lambda: f.minimise(itv)), op["fault"], lab)
        x, v = fl(r[0]), fl(r[1])
        if x is None or v is None or not float(a) - 1e-12 <= x <= float(b) + 1e-12:
            e.fail("extremum", "%s: returned %s on %s" % (lab, r, itv))
        d = padd(pmul(pdiff(p.n), p.d), pmul(p.n, pdiff(p.d)), -1)
        cand = [a, b] + (real_roots(d, a, b) if any(d) else [])
        best = (max if big else min)(p.at(c) for c in cand)
        if abs(v - float(best)) > 1e-9 * (1 + abs(float(best))):
            e.fail("extremum", "%s: the %s of %s on [%s, %s] is %s, returned %s" % (lab, "maximum" if big else "minimum", f, a, b, float(best), v))
        w = p.at(F(x))
        if w is None or abs(float(w) - v) > 1e-6 * (1 + abs(v)):
            e.fail("extremum", "%s: %s is not the value at %s" % (lab, v, x))
        if len(cand) > 2:
            e.probe("nontrivial")
        e.log(lab, round(float(best), 9))

    def op_poly(self, e, op, pool, case, rng, lab):
        """A chain of sums, differences, products and copies of polynomials with rational coefficients."""
        def coeffs():
            c = [F(rng.choice([0, 0, 1, -1, 2, -3, 5]), rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
            while c and c[-1] == 0:
                c.pop()
            return c

        def lo(fn, a, b, *s):
            """fn of two lists that begin with the constant term"""
            return fn(a[::-1] or [F(0)], b[::-1] or [F(0)], *s)[::-1]
        ps = []
        for _ in range(rng.choice([2, 3])):
            c = coeffs()
            ps.append((PN.Polynomial(tuple(c)), c))
        for k in range(rng.randint(2, 5)):
            (f, a), (g, b) = rng.choice(ps), rng.choice(ps)
            how = rng.choice(["add", "sub", "sub", "mul", "copy"])
            named = rng.random() < 0.5
            if how == "mul" and len(a) + len(b) > 12:
                continue
            if how == "copy":
                fn, c = (lambda: copy.copy(f)), list(a)
            elif how == "mul":
                fn, c = (lambda: f.multiply(g)) if named else (lambda: f * g), lo(pmul, a, b)
            elif how == "add":
                fn, c = (lambda: f.add(g)) if named else (lambda: f + g), lo(padd, a, b)
            else:
                fn, c = (lambda: f.subtract(g)) if named else (lambda: f - g), lo(padd, a, b, -1)
            c = [] if not any(c) else list(c)
            r = self.ask(e, fn, op["fault"] if k == 0 else None, lab)
            ps.append((r, c))
            for o, m in ps:
                if list(o.coefficients) != m:
                    e.fail("polynomial" if o is r else "inputs-changed", "%s-%s: coefficients %s instead of %s" % (lab, how, o.coefficients, [str(v) for v in m]))
                if bool(o.is_zero()) != (not m) or o.degree() != (len(m) - 1 if m else float("-inf")):
                    e.fail("polynomial", "%s: %s has degree %s, is_zero %s" % (lab, [str(v) for v in m], o.degree(), o.is_zero()))
            if bool(f == g) != (a == b) or bool(r == f) != (c == a):
                e.fail("equality", "%s: %s == %s gives %s" % (lab, a, b, f == g))
            e.log(lab, how, [str(v) for v in c])

    def op_itv(self, e, op, pool, case, rng, lab):
        itv, a, b = self.itv(op)
        o = case["ops"][op["j"] % len(case["ops"])]
        c, d, inc = un(o["a"]), un(o["b"]), o["inc"]
        if op["m"]:
            text = "%s%s, %s%s" % ("[" if inc[0] else "(", c, d, "]" if inc[1] else ")")
            other = self.ask(e, lambda: FN.Interval(text), op["fault"], lab)
        else:
            other = FN.Interval(c, d, *inc)
        if rng.random() < 0.2:
            other = FN.Interval(b, b, True, rng.random() < 0.5)
            c, d, inc = b, b, [True, other.include_upper]
        both = self.ask(e, lambda: itv.intersect(other), op["fault"], lab)

        def inside(x, lo, hi, i):
            return (lo < x or lo == x and i[0]) and (x < hi or x == hi and i[1])
        pts = {a, b, c, d} | {(u + v) / 2 for u in (a, b, c, d) for v in (a, b, c, d)} | {a - 1, b + 1, c - 1, d + 1}
        some = False
        for x in sorted(pts):
            w1, w2 = inside(x, a, b, op["inc"]), inside(x, c, d, inc)
            some = some or (w1 and w2)
            if bool(itv.contains(x)) != w1 or bool(other.contains(x)) != w2:
                e.fail("interval", "%s: %s or %s at %s" % (lab, itv, other, x))
            if bool(both.contains(x)) != (w1 and w2):
                e.fail("interval", "%s: %s lies in %s and %s: %s, in their intersection %s: %s" % (lab, x, itv, other, w1 and w2, both, both.contains(x)))
        if bool(both.is_empty()) == some:
            e.fail("interval", "%s: the intersection %s of %s and %s is_empty: %s" % (lab, both, itv, other, both.is_empty()))
        if not (itv == itv.deep_copy()) or (itv == other) != ((a, b, op["inc"]) == (c, d, list(inc))):
            e.fail("interval", "%s: %s == %s" % (lab, itv, other))
        if itv.length() != b - a or itv.midpoint() != (a + b) / 2:
            e.fail("interval", "%s: length or midpoint of %s" % (lab, itv))


# ------------------------------------------------------ piecewise affine
def gen_cells(rng, d, box, n):
    """A box cut into at most n cells by random halfplanes."""
    cells = [list(box)]
    while len(cells) < n and rng.random() < 0.9:
        c = cells.pop(rng.randrange(len(cells)))
        a = [rng.choice([0, 1, 1, -1, 2, -2]) for _ in range(d)]
        if not any(a):
            a[rng.randrange(d)] = 1
        x = [F(rng.randint(0, 12), 4) for _ in range(d)]
        r = [-sum(p * q for p, q in zip(a, x))] + [F(v) for v in a]
        s = [-v for v in r]
        if MP(d, c + [r]).interior_empty() or MP(d, c + [s]).interior_empty():
            cells.append(c)
            if rng.random() < 0.3:
                break
            continue
        cells += [c + [r], c + [s]]
    return cells


def box_rows(d, lo, hi):
    rows = []
    for i in range(d):
        a, b = [F(0)] * (d + 1), [F(0)] * (d + 1)
        a[0], a[i + 1], b[0], b[i + 1] = -F(lo[i]), F(1), F(hi[i]), F(-1)
        rows += [a, b]
    return rows


def gen_pw(rng, d):
    lo = [rng.choice([0, 0, 0, 1]) for _ in range(d)]
    box = box_rows(d, lo, [v + rng.choice([2, 3, 2]) for v in lo])
    fns = [[F(rng.randint(-3, 3), rng.choice([1, 1, 2]))] + [F(rng.randint(-2, 2), rng.choice([1, 1, 2])) for _ in range(d)]
           for _ in range(rng.choice([1, 2, 2, 3]))]
    labs = rng.choice([[None], [None], ["a", "b"], ["a", "b", "c"]])
    out = []
    for c in gen_cells(rng, d, box, rng.choice([1, 2, 3, 4, 4])):
        out.append({"p": [[fr(v) for v in r] for r in c], "a": [fr(v) for v in rng.choice(fns)], "l": rng.choice(labs)})
    rng.shuffle(out)
    return out


class PM:
    """Model of a piecewise function: at(x) -> (value, labels) or None, for points off all boundaries."""

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def at(self, x):
        if self.k == "leaf":
            for mp, f, l in self.a[0]:
                if mp.inside(x):
                    return ev(f, x), {l}
            return None
        if self.k == "min":
            u, v = self.a[0].at(x), self.a[1].at(x)
            if u is None or v is None:
                return None
            return u if u[0] < v[0] else v if v[0] < u[0] else (u[0], u[1] | v[1])
        if self.k == "crop":
            return self.a[0].at(x) if self.a[1].inside(x) else None

    def polys(self):
        if self.k == "leaf":
            return [mp for mp, _, _ in self.a[0]]
        if self.k == "crop":
            return self.a[0].polys() + [self.a[1]]
        return self.a[0].polys() + self.a[1].polys()

    def fns(self):
        if self.k == "leaf":
            return [f for _, f, _ in self.a[0]]
        return self.a[0].fns() + (self.a[1].fns() if self.k == "min" else [])


class PiecewiseAffine(LVBase):
    pid = "F01"
    cases = {"quick": 1500, "thorough": 24000}
    real = ["functions.py (Affine2, Piecewise)", "polytope.py", "pycddlib"]
    stubs = ["console", "matplotlib", "clock"]
    rule = ("seeded histories of minima, crops, merges, copies and domain scalings over a growing pool of piecewise affine functions of "
            "two or three variables, with solver failures and interruptions followed by a retry; non-trivial when a minimum takes values "
            "from both sides; distinct by event log")

    def generate(self, rng, tier):
        d = rng.choice([2, 2, 2, 2, 3])
        ops = []
        for _ in range(rng.randint(2, 5)):
            o = rng.choice(["min", "min", "min", "simplify", "simplify", "crop", "copy", "scale", "check", "plane"])
            op = {"op": o, "i": rng.randrange(8), "j": rng.randrange(8), "r": rng.getrandbits(32), "flag": rng.random() < 0.7,
                  "g": rng.choice([2, 2, 3, 3, 4]), "fault": None}
            if o == "crop":
                lo = [rng.choice([F(0), F(1, 2), F(1)]) for _ in range(d)]
                op["p"] = [[fr(v) for v in r] for r in rng.choice(gen_cells(rng, d, box_rows(d, lo, [v + rng.choice([1, 2]) for v in lo]), 3))]
            if o == "scale":
                op.update(dim=rng.randint(1, d), f=fr(rng.choice([F(2), F(1, 2), F(3), F(3, 2)])))
            if o == "plane":
                op["h"] = [fr(F(rng.randint(-4, 4), rng.choice([1, 2])))] + [fr(F(rng.randint(-2, 2))) for _ in range(d)]
            if rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["LinProg", "Polyhedron"], 40), gen_interrupt(rng, 6000)])
            ops.append(op)
        return {"d": d, "fns": [gen_pw(rng, d) for _ in range(rng.randint(1, 3))], "ops": ops}

    def build(self, s, d):
        ps, m = [], []
        for p in s:
            rows, a = [[un(v) for v in r] for r in p["p"]], [un(v) for v in p["a"]]
            ps.append(FN.Affine2(list(a), PT.Polytope([list(r) for r in rows]), p["l"]))
            m.append((MP(d, rows), tuple(a), p["l"]))
        return FN.Piecewise(ps), PM("leaf", m)

    def run(self, case, e):
        d = case["d"]
        self.pool = [self.build(s, d) for s in case["fns"]]
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            i = op["i"] % len(self.pool)
            text = [str(f.pieces) for f, _ in self.pool]
            getattr(self, "op_" + op["op"])(e, op, i, d, random.Random(op["r"]), lab)
            for k, (f, _) in enumerate(self.pool[:len(text)]):
                if str(f.pieces) != text[k] and not (k == i and op["op"] in ("crop", "simplify")):
                    e.fail("inputs-changed", "%s changed function %d, it was asked of %d" % (lab, k, i))
            e.cover(op["op"], d, len(self.pool), min(12, len(self.pool[-1][0].pieces)))
            if len(self.pool[-1][0].pieces) > 24:
                break

    def agree_pw(self, e, f, m, d, rng, lab, n=14):
        ps = m.polys()
        planes = [MP(d, [tuple(a - b for a, b in zip(u, v))]) for u in m.fns() for v in m.fns() if u < v]
        sides = set()
        for x in cell_points(ps + planes[:6], rng, n, d, F(-1), F(7)):
            w = m.at(x)
            g = f.at(list(x))
            if (w is None) != (g is None) or w is not None and g != w[0]:
                e.fail("value", "%s: at %s the function is %s, not %s" % (lab, fmt(x), g, None if w is None else w[0]))
            if w is None:
                continue
            labs = {p.label for p in f.pieces if p.domain.contains(list(x))}
            if not labs <= w[1]:
                e.fail("label", "%s: at %s the value comes from %s, labelled %s" % (lab, fmt(x), sorted(map(str, w[1])), sorted(map(str, labs))))
            sides.add(tuple(sorted(map(str, w[1]))) + (w[0],))
        e.log(lab, len(f.pieces) > 0, len(sides))

    def op_min(self, e, op, i, d, rng, lab):
        (f, m), (g, q) = self.pool[i], self.pool[op["j"] % len(self.pool)]
        if len(f.pieces) * len(g.pieces) > 40:
            return
        r = self.ask(e, lambda: f.min_with(g), op["fault"], lab)
        w = PM("min", m, q)
        self.agree_pw(e, r, w, d, rng, lab)
        for a in range(len(r.pieces)):
            for b in range(a):
                p = [MP(d, [list(t) for t in PT_rows(r.pieces[c].domain)]) for c in (a, b)]
                if not p[0].meet(p[1]).interior_empty() and r.pieces[a].a != r.pieces[b].a:
                    e.fail("overlap", "%s: two pieces of the minimum overlap" % lab)
        if f is not g and r.pieces:
            e.probe("nontrivial")
        self.pool.append((r, w))

    def op_simplify(self, e, op, i, d, rng, lab):
        f, m = self.pool[i]
        if len(f.pieces) > (9 if op["g"] > 3 else 14):
            return
        n = len(f.pieces)
        self.ask(e, lambda: f.simplify(op["g"]), op["fault"], lab)
        if len(f.pieces) > n:
            e.fail("simplify", "%s: %d pieces became %d" % (lab, n, len(f.pieces)))
        if len(f.pieces) < n:
            e.probe("merged")
        self.agree_pw(e, f, m, d, rng, lab)
        for a in range(len(f.pieces)):
            for b in range(a):
                p, q = f.pieces[a], f.pieces[b]
                if op["g"] >= 2 and p.a == q.a and p.label == q.label and self.mergeable(p.domain, q.domain, d):
                    e.fail("simplify", "%s: two pieces with one convex union are left apart" % lab)

    def mergeable(self, p, q, d):
        P, R = [MP(d, [list(t) for t in PT_rows(x)]) for x in (p, q)]
        if P.interior_empty() or R.interior_empty():
            return False
        hull = [r for r in P.rows if all(ev(r, v) >= 0 for v in R.verts())] + [r for r in R.rows if all(ev(r, v) >= 0 for v in P.verts())]
        return MP(d, hull).bounded() and MP(d, hull).covered([P, R])

    def op_crop(self, e, op, i, d, rng, lab):
        f, m = self.pool[i]
        rows = [[un(v) for v in r] for r in op["p"]]
        P = PT.Polytope([list(r) for r in rows])
        text = str(P)
        self.ask(e, lambda: f.crop(P, op["flag"]), op["fault"], lab)
        if str(P) != text:
            e.fail("inputs-changed", "%s changed the cropping domain" % lab)
        w = PM("crop", m, MP(d, rows))
        if op["flag"] and any(MP(d, [list(t) for t in PT_rows(p.domain)]).interior_empty() for p in f.pieces):
            e.fail("crop", "%s: a piece without interior is kept" % lab)
        self.pool[i] = (f, w)
        self.agree_pw(e, f, w, d, rng, lab)

    def op_copy(self, e, op, i, d, rng, lab):
        f, m = self.pool[i]
        g = self.ask(e, lambda: copy.copy(f), op["fault"], lab)
        self.agree_pw(e, g, m, d, rng, lab, 6)
        self.pool.append((g, m))

    def op_scale(self, e, op, i, d, rng, lab):
        f, m = self.pool[i]
        k, c = op["dim"], un(op["f"])
        r = self.ask(e, lambda: f.scale(k, c, []), op["fault"], lab)
        if len(r.pieces) != len(f.pieces):
            e.fail("scale", "%s: %d pieces became %d" % (lab, len(f.pieces), len(r.pieces)))
        for x in cell_points(m.polys(), rng, 10, d, F(-1), F(7)):
            y = list(x)
            y[k - 1] *= c
            w = m.at(x)
            if (w is None) != (r.at(y) is None):
                e.fail("scale", "%s: at %s the scaled function is %s" % (lab, fmt(y), "undefined" if w else "defined"))

    def op_check(self, e, op, i, d, rng, lab):
        f, m = self.pool[i]
        if d != 2 or not f.pieces or len(f.pieces) > 8:
            return
        # a square inside the first cell, or one that leaves the function's domain
        P = MP(d, [list(t) for t in PT_rows(f.pieces[0].domain)])
        if P.interior_empty():
            return
        c = P.interior_point()
        w = min(ev(r, c) / sum(abs(v) for v in r[1:]) for r in P.rows) / 2
        if not op["flag"]:
            w = F(40)
        lo, hi = [v - w for v in c], [v + w for v in c]
        r = self.ask(e, lambda: f.check((lo[0], hi[0]), (lo[1], hi[1])), op["fault"], lab)
        models = [MP(d, [list(t) for t in PT_rows(p.domain)]) for p in f.pieces]
        over = any(not models[a].meet(models[b]).interior_empty() for a in range(len(models)) for b in range(a))
        want = op["flag"] and not over
        if bool(r) != want:
            e.fail("check", "%s: check says %s; pieces overlap: %s, defined everywhere: %s" % (lab, r, over, op["flag"]))

    def op_plane(self, e, op, i, d, rng, lab):
        f, m = self.pool[i]
        h = [un(v) for v in op["h"]]
        if not any(h[1:]) or not f.pieces:
            return
        H = PT.Hyperplane(list(h))
        for p in f.pieces[:3]:
            P = MP(d, [list(t) for t in PT_rows(p.domain)])
            if P.interior_empty():
                continue
            s = [ev(h, v) for v in P.verts()]
            r = self.ask(e, lambda: p.domain.intersects(H), op["fault"], lab)
            if min(s) < 0 < max(s) and not r or (min(s) > 0 or max(s) < 0) and r:
                e.fail("plane", "%s: the plane %s cuts the piece: %s, on the vertices it is %s" % (lab, fmt(h), r, fmt(s)))
            c = self.ask(e, lambda: p.domain.get_centroid(), op["fault"], lab)
            if not P.inside(tuple(c)):
                e.fail("centroid", "%s: %s does not lie inside the piece" % (lab, c))
            v = P.verts()[0]
            if bool(H.contains(list(v))) != (ev(h, v) == 0):
                e.fail("plane", "%s: %s on %s" % (lab, fmt(v), fmt(h)))
        q = f.pieces[0].intersection(f.pieces[-1])
        x = cell_points(m.polys(), rng, 1, d)
        for y in x:
            if bool(q.contains(list(y))) != (f.pieces[0].at(list(y)) == f.pieces[-1].at(list(y))):
                e.fail("plane", "%s: where two pieces agree" % lab)


def PT_rows(p):
    """Rows of a library polytope (equalities as two rows), through its public constraints."""
    out = []
    for c in p.get_constraints():
        r = [F(v) for v in c.coefficients]
        out.append(r)
        if c.inequality_type == PT.Constraint.EQUALS:
            out.append([-v for v in r])
    return out

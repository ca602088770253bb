"""C01 the shipped literature states the published theorems."""
import random
import sys
import types

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_solver, gen_schedule, HY, fr, un
import env
from env import W, SRC
import models as MD
import models_lit as P
from work_lv import LVBase
import bound_beta as BB
import bound_mu as BM
import exponent_pair as EP
import functions as FN
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE
import literature as LT

H = F(1, 2)
BASE = sorted(LT.literature.to_list(), key=lambda h: (h.name, str(h.data), str(h.reference.year()), h.proof))
BIB = env.REAL_OPEN(SRC + "/../references.bib", encoding="utf8").read()
FUNS = {"beta": ("Upper bound on beta", P.BETA), "zero": ("Zero density estimate", P.ZD), "energy": ("Zero density energy estimate", P.ZDE)}
POINTS = {"mu": ("Upper bound on mu", P.MU), "pair": ("Exponent pair", P.PAIRS)}
REGIONS = {"lv": ("Large value estimate", P.LVS), "zlv": ("Zeta large value estimate", P.ZLVS),
           "lver": ("Large value energy region", P.LVERS)}
TAG = {"lv": " with ", "zlv": " with ", "lver": " region "}
YEARS = [1900, 1921, 1930, 1950, 1972, 1979, 1980, 1984, 1989, 1993, 1996, 2000, 2003, 2005, 2016, 2017, 2023, 2024]
for _h in BASE:                        # parse once: the memory of an expression is not what is under test
    if _h.hypothesis_type in ("Zero density estimate", "Zero density energy estimate"):
        try:
            _i = _h.data.interval
            _h.data.at((_i.x0 + _i.x1) / 2)
        except Exception:              # judged, with its seed, in the runs
            pass


def num(v):
    try:
        return F(str(v))
    except (ValueError, TypeError, ZeroDivisionError):
        return float(v)


def le(a, b, eps=1e-9):
    if isinstance(a, F) and isinstance(b, F):
        return a <= b
    return float(a) <= float(b) + eps * (1 + abs(float(b)))


def by(authors, h):
    return all(a in h.reference.author() for a in authors.split(", "))


def upto(claims, y):
    return [c for c in claims if y is None or (c[1] is not None and c[1] <= y)]


def samples(rng, claims, n, lo=None, hi=None):
    """Points in general position between the ends of the claims' ranges."""
    ends = sorted({e for c in claims for e in (c[2], c[3])} | ({lo, hi} - {None}))
    out = []
    for a, b in zip(ends, ends[1:]):
        out.append(a + (b - a) * F(rng.randint(100, 900), 1009))
    if len(out) > n:
        out = rng.sample(out, n)
    while len(out) < n and len(ends) > 1:
        i = rng.randrange(len(ends) - 1)
        out.append(ends[i] + (ends[i + 1] - ends[i]) * F(rng.randint(1, 10006), 10007))
    return [x for x in sorted(out) if (lo is None or x > lo) and (hi is None or x < hi) and x < 1]


def beside(rng, claims, n, lo, hi):
    """Points a hair inside and outside some of the ends of the claims' ranges."""
    ends = sorted({e for c in claims for e in (c[2], c[3])})
    out = [x + d for x in rng.sample(ends, min(n, len(ends))) for d in (F(-1, 10 ** 9), F(1, 10 ** 9))]
    return [x for x in out if lo < x < hi and x < 1]


def crossings(f, lo, hi, rng):
    """A point close to where two consecutive claims may meet is worth a sample of its own: thirds of a random cell."""
    a, b = sorted([lo + (hi - lo) * F(rng.randint(1, 996), 997), lo + (hi - lo) * F(rng.randint(1, 996), 997)])
    return [a, b, (a + b) / 2]


def interior(iv, x):
    return F(str(iv.x0)) < x < F(str(iv.x1))


class Literature(LVBase):
    pid = "C01"
    cases = {"quick": 1500, "thorough": 20000}
    rule = ("seeded sessions of one to four questions to the shipped literature, held in a simulated set order: every claim of one kind "
            "and period against the theorem published, at seeded points; estimates looked up by name; transforms of seeded exponent "
            "pairs; the best bounds on beta, mu and A known in a given year; the literature loaded again from a simulated disk; with "
            "interruptions, failing solvers, disk errors and concurrent readers; non-trivial when values or regions were compared; "
            "distinct by event log")
    real = ["literature.py", "bound_beta.py", "bound_mu.py", "exponent_pair.py", "transform.py", "large_values.py",
            "zeta_large_values.py", "additive_energy.py", "zero_density_estimate.py", "zero_density_energy_estimate.py", "region.py",
            "polytope.py", "functions.py", "hypotheses.py", "reference.py", "references.bib", "pycddlib"]
    stubs = ["clock", "console", "matplotlib", "disk (when the literature is loaded again)"]

    def generate(self, rng, tier):
        def one(light):
            r = rng.random()
            y = rng.choice([None, None, rng.choice(YEARS)])
            d = {"r": rng.getrandbits(32), "y": y}
            if r < 0.3:
                d.update(op="fun", k=rng.choice(["beta", "beta", "zero", "zero", "energy"]))
            elif r < 0.4:
                d.update(op="pt", k=rng.choice(sorted(POINTS)))
            elif r < 0.6:
                d.update(op="region", k=rng.choice(["lv", "lv", "zlv", "lver", "lver", "lver"]))
            elif r < 0.7:
                k = F(rng.randint(0, 60), rng.choice([120, 126, 137]))
                l = F(1) - F(rng.randint(0, 60), rng.choice([120, 126, 137]))
                d.update(op="transform", k=fr(k), l=fr(l))
            elif r < 0.8:
                d.update(op="mu", n=rng.randint(1, 3), all=rng.random() < 0.3)
            elif r < 0.87:
                d.update(op="classic")
            elif light or r < 0.93:
                d.update(op="beta", y=rng.choice([1989, 1993, 1996, 2003]) if light or rng.random() < 0.7 else y)
            else:
                d.update(op="zero", y=rng.choice([1972, 1973, 1975, 1979, 1980, 1989]), k=rng.randint(2, 5))
            return d

        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.06:
                ops.append({"op": "threads", "fns": [one(True) for _ in range(2)], "sched": gen_schedule(rng, 2, 4000, 120)})
                continue
            op = one(False)
            op["fault"] = None
            r = rng.random()
            if r < 0.3:
                op["fault"] = gen_interrupt(rng, 30000)
            elif r < 0.4:
                op["fault"] = gen_solver(rng, ["LinProg", "Polyhedron", "solve", "parse_expr", "ConvexHull"], 12)
            ops.append(op)
        if rng.random() < 0.02:
            sp = rng.choice([None, {"kind": "open_error", "nth": 1, "errno": rng.choice([2, 13, 24])},
                             {"kind": "read_error", "nth": rng.choice([1, 2, 6]), "errno": 5},
                             {"kind": "mid", "fail_after": rng.choice([1, 400, 20000, 100000]), "errno": 5}])
            ops = [{"op": "reload", "r": rng.getrandbits(32), "k": rng.choice(sorted(FUNS) + sorted(POINTS)), "y": None,
                    "fault": {"kind": "disk", "spec": sp} if sp else gen_interrupt(rng, 60000) if rng.random() < 0.5 else None}]
        elif rng.random() < 0.01:
            m = rng.choice([5, 5, 12])
            ops = [{"op": "chain", "r": 0, "y": None, "m": m, "pairs": ["Bourgain", "Trudgian, Yang"] + ["Heath-Brown"] * (m > 5),
                    "fault": rng.choice([None, gen_interrupt(rng, 100000)])}]
        return {"ops": ops, "shuffle": rng.getrandbits(32)}

    # -------------------------------------------------------------- questions
    def make(self, e, op, S, lab):
        """(question to the library, verdict on its answer)"""
        return getattr(self, "op_" + op["op"])(e, op, S, random.Random(op["r"]), lab)

    def group(self, hs, claims, c):
        return [h for h in hs if h.reference.year() == (c[1] if c[1] is not None else "Unknown date") and by(c[0], h)]

    def op_fun(self, e, op, S, rng, lab):
        typ, claims = FUNS[op["k"]]
        cs = upto(claims, op["y"])
        keys = sorted({(c[0], c[1]) for c in cs})
        rng.shuffle(keys)
        keys = keys[:6]
        lo, hi = (F(0), H) if op["k"] == "beta" else (H, F(1))
        pts = {k: samples(rng, [c for c in cs if (c[0], c[1]) == k], 14, lo, hi) + beside(rng, [c for c in cs if (c[0], c[1]) == k], 10, lo, hi)
               for k in keys}
        iv = (lambda h: h.data.bound.domain) if op["k"] == "beta" else (lambda h: h.data.interval)
        at = (lambda h, x: h.data.bound.at(x)) if op["k"] == "beta" else (lambda h, x: h.data.at(x))

        def fn():
            hs = S.list_hypotheses(typ) if op["y"] is None else S.list_hypotheses(typ, op["y"])
            obs = {}
            for k in keys:
                for h in self.group(hs, claims, k):
                    a, b = F(str(iv(h).x0)), F(str(iv(h).x1))
                    own = [a + (b - a) * F(414, 997), a + (b - a) * F(905, 997)]
                    obs.setdefault(k, []).append((h, a, b, [(x, at(h, x)) for x in pts[k] + own if interior(iv(h), x)]))
            return hs, obs

        def judge(r):
            hs, obs = r
            for h in hs:
                if not any(h.reference.year() == c[1] and by(c[0], h) for c in cs):
                    e.fail("unpublished", "%s: %s, %s, is credited to %s %s, where no such result is stated%s" % (
                        lab, h.name, h.data, h.reference.author(), h.reference.year(), "" if op["y"] is None else " by %d" % op["y"]))
            n = 0
            for k in keys:
                g = [c for c in cs if (c[0], c[1]) == k]
                got = {}
                for h, a, b, vs in obs.get(k, []):
                    vs = [(x, num(v)) for x, v in vs]
                    if not any(c[2] <= a and b <= c[3] and all(le(v, c[4](x)) and le(c[4](x), v) for x, v in vs) for c in g):
                        e.fail("entry", "%s: %s of %s (%s) is not one of the bounds stated there, on a part of its range" % (
                            lab, h.data, h.reference.author(), h.reference.year()))
                    for x, v in vs:
                        got.setdefault(x, []).append(v)
                        w = [c[4](x) for c in g if c[2] <= x <= c[3]]
                        if not w:
                            e.fail("range", "%s: %s of %s (%s) is applied at %s, outside the range of the theorem" % (
                                lab, h.data, h.reference.author(), h.reference.year(), x))
                        if not le(min(w), v):
                            e.fail("value", "%s: %s (%s) is stored as %s at %s; the theorem gives %s" % (
                                lab, h.reference.author(), h.reference.year(), v, x, min(w)))
                        n += 1
                for c in g:
                    for x in pts[k]:
                        if c[2] < x < c[3] and not any(le(v, c[4](x)) for v in got.get(x, [])):
                            e.fail("missing", "%s: the bound %s of %s (%s) at %s is missing: the literature has %s" % (
                                lab, c[4](x), c[0], c[1], x, ", ".join(map(str, got.get(x, []))) or "none"))
            if n:
                e.probe("nontrivial")
            e.log("fun", op["k"], keys, n)
            e.cover("fun", op["k"], op["y"])
        return fn, judge

    def op_pt(self, e, op, S, rng, lab):
        typ, claims = POINTS[op["k"]]
        cs = upto(claims, op["y"])

        def fn():
            hs = S.list_hypotheses(typ) if op["y"] is None else S.list_hypotheses(typ, op["y"])
            return [(h, h.data.sigma, h.data.mu) if op["k"] == "mu" else (h, h.data.k, h.data.l) for h in hs]

        def judge(r):
            for h, a, b in r:
                if not any((F(a), F(b)) == (c[2], c[3]) and by(c[0], h) and
                           h.reference.year() == (c[1] if c[1] is not None else "Unknown date") for c in cs):
                    e.fail("unpublished", "%s: %s is credited to %s (%s), where (%s, %s) is not stated" % (
                        lab, h.name, h.reference.author(), h.reference.year(), a, b))
            for c in cs:
                if not any((F(a), F(b)) == (c[2], c[3]) and by(c[0], h) for h, a, b in r):
                    e.fail("missing", "%s: (%s, %s) of %s (%s) is missing" % (lab, c[2], c[3], c[0], c[1]))
            e.log("pt", op["k"], len(r))
            e.cover("pt", op["k"], op["y"])
            e.probe("nontrivial")
        return fn, judge

    # -------------------------------------------------------------- regions
    def region_points(self, rng, kind, m, n):
        """Points on both sides of the boundary of a theorem, close to it, and in general position."""
        d = 5 if kind == "lver" else 3

        def rand():
            s = H + F(rng.randint(1, 996), 1994)
            t = rng.choice([F(rng.randint(1, 996), 997), 1 + F(rng.randint(1, 996), 997), 1 + F(rng.randint(1, 996), 499), F(rng.randint(1, 996), 199)])
            x = [s, t, F(rng.randint(1, 996), rng.choice([400, 997]))]
            if d == 5:
                x += [F(rng.randint(1, 996), rng.choice([200, 400])), F(rng.randint(1, 996), rng.choice([200, 400]))]
            return x

        inside = (lambda x: m(*x)) if d == 5 else (lambda x: x[2] <= m(x[0], x[1]))
        out = []
        last = {True: None, False: None}
        for _ in range(8 * n):
            if len(out) >= n:
                break
            x = rand()
            v = inside(x)
            last[v] = x
            if rng.random() < 0.25:
                out.append((x, v))
            if last[True] and last[False]:
                a, b = last[True], last[False]
                k = 0
                if rng.random() < 0.7:       # along rho only, the other coordinates fixed
                    a = list(last[True])
                    b = list(a)
                    i = rng.choice(range(2, d))
                    b[i] = a[i] + rng.choice([-1, 1]) * F(5) if d == 5 else a[i] + 5
                    if b[i] < 0 or inside(b):
                        continue
                for k in range(14):
                    c = [(p + q) / 2 for p, q in zip(a, b)]
                    if inside(c):
                        a = c
                    else:
                        b = c
                out += [(a, True), (b, False)]
                last = {True: None, False: None}
        return [(x, v) for x, v in out if x[1] not in (1, F(4, 3), F(3, 2))]     # where the cases of a theorem meet

    def op_region(self, e, op, S, rng, lab):
        typ, claims = REGIONS[op["k"]]
        cs = upto(claims, op["y"])
        # a few theorems of the period, each against every estimate credited to it
        some = rng.sample(cs, min(len(cs), 3 if op["k"] == "lver" else 5))
        named = [c for c in some if c[2]]
        pts = {id(c): self.region_points(rng, op["k"], c[3], 10) for c in some}

        def cands(hs, c):
            g = self.group(hs, claims, c)
            return [h for h in g if h.name.endswith(TAG[op["k"]] + c[2])] if c[2] else [h for h in g if not any(
                k[2] and k[:2] == c[:2] and h.name.endswith(TAG[op["k"]] + k[2]) for k in claims)]

        def fn():
            hs = S.list_hypotheses(typ) if op["y"] is None else S.list_hypotheses(typ, op["y"])
            return hs, {id(c): [(h, [bool(h.data.region.contains(list(x))) for x, _ in pts[id(c)]]) for h in cands(hs, c)] for c in some}

        def judge(r):
            hs, obs = r
            if len(hs) != len(cs):
                e.fail("count", "%s: there are %d estimates of type %r%s, the publications state %d" % (
                    lab, len(hs), typ, "" if op["y"] is None else " by %d" % op["y"], len(cs)))
            for c in some:
                if len(obs[id(c)]) != 1:
                    e.fail("missing", "%s: %d estimates carry the theorem of %s (%s)%s" % (
                        lab, len(obs[id(c)]), c[0], c[1], " with " + c[2] if c[2] else ""))
                h, vs = obs[id(c)][0]
                for (x, w), g in zip(pts[id(c)], vs):
                    if g != w:
                        e.fail("region", "%s: %s is %s the region stored as %r, by the theorem of %s (%s) it is %s" % (
                            lab, "(" + ", ".join(map(str, x)) + ")", "in" if g else "not in", h.name, c[0], c[1],
                            "possible" if w else "impossible"))
                e.cover("region", op["k"], c[0], c[2])
            if some and any(pts.values()):
                e.probe("nontrivial")
            e.log("region", op["k"], [(c[0], c[1], c[2]) for c in some])
        return fn, judge

    # ------------------------------------------------------------- transforms
    def op_transform(self, e, op, S, rng, lab):
        k, l = un(op["k"]), un(op["l"])
        h = EP.literature_exp_pair(k, l, env_ref())
        alphas = [F(rng.randint(1, 996), 1994) for _ in range(6)]

        def fn():
            out = []
            for t in S.list_hypotheses("Exponent pair transform"):
                r = t.data.transform(h)
                out.append((t, r, r.data.k, r.data.l))
            betas = [(t, t.data.transform(h)) for t in S.list_hypotheses("Exponent pair to beta bound transform")]
            return out, [(t, bs, [(x, [b.data.bound.at(x) for b in bs if b.data.bound.domain.contains(x)]) for x in alphas]) for t, bs in betas]

        def judge(r):
            out, betas = r
            if len(out) != len(P.TRANSFORMS) or len(betas) != 1:
                e.fail("count", "%s: %d transforms of exponent pairs and %d to bounds on beta are stored" % (lab, len(out), len(betas)))
            for name, f in sorted(P.TRANSFORMS.items()):
                w = f(k, l)
                g = [q for q in out if q[0].name == name]
                if len(g) != 1 or (F(g[0][2]), F(g[0][3])) != w:
                    e.fail("transform", "%s: the %s takes (%s, %s) to %s, not to (%s, %s)" % (
                        lab, name, k, l, [(str(q[2]), str(q[3])) for q in g], w[0], w[1]))
                if set(g[0][1].dependencies) != {h, g[0][0]}:
                    e.fail("dependencies", "%s: the pair from the %s depends on %s" % (lab, name, [d.name for d in g[0][1].dependencies]))
            for t, bs, vs in betas:
                for x, v in vs:
                    w = P.d_transform(k, l, x)
                    if not v or any(F(y) != w for y in v):
                        e.fail("transform", "%s: the %s takes (%s, %s) to beta(%s) <= %s, not %s" % (lab, t.name, k, l, x, list(map(str, v)), w))
                for b in bs:
                    if set(b.dependencies) != {h, t}:
                        e.fail("dependencies", "%s: the bound from the %s depends on %s" % (lab, t.name, [d.name for d in b.dependencies]))
            e.log("transform", k, l)
            e.cover("transform")
            e.probe("nontrivial")
        return fn, judge

    # ----------------------------------------------------- best bounds in a year
    def op_mu(self, e, op, S, rng, lab):
        y = None if op["all"] else op["y"]
        cs = upto(P.MU, y) if not (op["y"] is None and not op["all"]) else upto(P.MU, 2024)
        xs = [F(rng.randint(1, 996), 997) for _ in range(op["n"])] + [rng.choice(P.MU)[2]]

        def fn():
            T = HY.Hypothesis_Set()
            if op["all"]:
                LT.add_bounds_mu_all(T)
            else:
                LT.add_bounds_mu_as_of(T, 2024 if y is None else y)
            return len(T), [BM.best_mu_bound(x, T) for x in xs]

        def judge(r):
            n, hs = r
            if n != len(cs):
                e.fail("count", "%s: %d bounds on mu were known%s, the set has %d" % (lab, len(cs), "" if y is None else " by %d" % y, n))
            facts = [(c[2], c[3]) for c in cs]
            for x, h in zip(xs, hs):
                lo, hi = MD.mu_range(x, facts, [], [], {})
                if h is None or F(h.data.sigma) != x or float(h.data.mu - hi) > 1e-9 or lo > F(h.data.mu):
                    e.fail("mu", "%s: the best bound on mu(%s) known%s is %s, the published results give %s" % (
                        lab, x, "" if y is None else " in %d" % y, None if h is None else h.data, hi))
            e.log("mu", y, [str(h.data) for h in hs])
            e.cover("mu", y)
            e.probe("nontrivial")
        return fn, judge

    def op_classic(self, e, op, S, rng, lab):
        y = op["y"]

        def fn():
            T, U = HY.Hypothesis_Set(), HY.Hypothesis_Set()
            LT.add_bounds_mu_classic(T)
            if y is None:
                LT.add_exp_pairs_all(U)
            else:
                LT.add_exp_pairs_up_to(U, y)
            return [(h.data.sigma, h.data.mu) for h in T], [(h.hypothesis_type, h.data.k, h.data.l) for h in U]

        def judge(r):
            if [(F(a), F(b)) for a, b in r[0]] != [(H, F(1, 6))]:
                e.fail("classic", "%s: the classical bounds on mu are %s" % (lab, r[0]))
            want = sorted({(c[2], c[3]) for c in upto(P.PAIRS, y)} | {(F(0), F(1))})
            got = sorted({(F(b), F(c)) for _, b, c in r[1]})
            if got != want or any(a != "Exponent pair" for a, _, _ in r[1]):
                e.fail("pairs", "%s: the exponent pairs known%s: %s are missing and %s are not known" % (
                    lab, "" if y is None else " in %d" % y, [tuple(map(str, p)) for p in want if p not in got],
                    [tuple(map(str, p)) for p in got if p not in want]))
            e.log("classic", y, len(got))
            e.cover("classic", y)
            e.probe("nontrivial")
        return fn, judge

    def op_beta(self, e, op, S, rng, lab):
        y = op["y"]
        cs = upto(P.BETA, y)
        xs = samples(rng, cs, 24, F(0), H) + crossings(None, F(0), H, rng)

        def fn():
            T = HY.Hypothesis_Set(S.list_hypotheses("Upper bound on beta") if y is None else S.list_hypotheses("Upper bound on beta", y))
            best = BB.compute_best_beta_bounds(T)
            return best, [(x, [b.data.bound.at(x) for b in best if b.data.bound.domain.contains(x)]) for x in xs]

        def judge(r):
            best, vs = r
            for x, v in vs:
                w = [c[4](x) for c in cs if c[2] <= x <= c[3]]
                if bool(v) != bool(w) or v and (min(map(F, v)) != min(w)):
                    e.fail("best-beta", "%s: the best bound on beta(%s) known%s is %s, the published results give %s" % (
                        lab, x, "" if y is None else " in %d" % y, list(map(str, v)), min(w) if w else "none"))
                t = [f(x) for a, b, f in P.TY if a <= x <= b]
                if y is None and min(map(F, v)) > min(t):
                    e.fail("best-beta", "%s: beta(%s) <= %s is known, the literature gives %s" % (lab, x, min(t), v))
            e.log("beta", y, len(best))
            e.cover("beta", y)
            e.probe("nontrivial")
        return fn, judge

    def op_zero(self, e, op, S, rng, lab):
        y = op["y"]
        keys = sorted({(c[0], c[1]) for c in upto(P.ZD, y)})
        keys = rng.sample(keys, min(len(keys), op["k"]))
        cs = [c for c in P.ZD if (c[0], c[1]) in keys]
        xs = samples(rng, cs, 20, H, F(1))

        def fn():
            T = HY.Hypothesis_Set([h for k in keys for h in self.group(S.list_hypotheses("Zero density estimate", y), P.ZD, k)])
            best = ZD.best_zero_density_estimate(T)
            return best, [(x, [(h, h.data.at(x)) for h in best if h.data.interval.contains(x)]) for x in xs]

        def judge(r):
            best, vs = r
            for x, v in vs:
                w = [c[4](x) for c in cs if c[2] <= x <= c[3]]
                if w and max(map(float, w)) > 10 ** 4:
                    continue
                if len(v) != 1:
                    e.fail("best-zero", "%s: sigma = %s lies in %d pieces of the best estimate" % (lab, x, len(v)))
                g = num(v[0][1])
                if w and not (le(g, min(w)) and le(min(w), g)):
                    e.fail("best-zero", "%s: the best bound on A(%s) known from %s is %s, the published results give %s" % (lab, x, keys, g, min(w)))
            e.log("zero", keys, len(best))
            e.cover("zero", y, len(keys))
            e.probe("nontrivial")
        return fn, judge

    # ------------------------------------------- the table of exponent pairs
    def op_chain(self, e, op, S, rng, lab):
        def fn():
            T = HY.Hypothesis_Set(S.list_hypotheses("Upper bound on beta"))
            for a in op["pairs"]:
                T.add_hypotheses([h for h in S.list_hypotheses("Exponent pair") if by(a, h)])
            T.add_hypothesis(EP.trivial_exp_pair)
            T.add_hypotheses(S.list_hypotheses("Exponent pair transform"))
            T.add_hypotheses(S.list_hypotheses("Exponent pair to beta bound transform"))
            T.add_hypotheses(EP.compute_exp_pairs(T, search_depth=1))
            T.add_hypotheses(BB.exponent_pairs_to_beta_bounds(T))
            T.add_hypotheses(BB.compute_best_beta_bounds(T))
            return EP.beta_bounds_to_exponent_pairs(T)

        def judge(hs):
            got = {(F(h.data.k), F(h.data.l)) for h in hs}
            lost = [tuple(map(str, v)) for v in P.hull_vertices(op["m"]) if v not in got]
            if lost:
                e.fail("vertices", "%s: the vertices %s of the hull of known exponent pairs are not found from the bounds on beta" % (lab, lost))
            for k, l in sorted(got):
                k, l = (k, l) if l - H >= k else (l - H, k + H)
                w = P.hull_at(k)
                if w is not None and l < w:
                    e.fail("hull", "%s: the exponent pair (%s, %s) is outside the hull of what is known" % (lab, k, l))
            e.log("chain", len(got))
            e.cover("chain", op["m"])
            e.probe("nontrivial")
        return fn, judge

    # ------------------------------------------------------------ loading again
    def reload(self):
        m = types.ModuleType("literature_again")
        m.__file__ = "/simdisk/python/literature.py"
        exec(RELOAD, m.__dict__)
        return m

    def op_reload(self, e, op, S, rng, lab):
        raise NotImplementedError

    def do_reload(self, e, op, lab):
        W.disk["/simdisk/python/../references.bib"] = W.disk["/simdisk/references.bib"] = BIB
        r = e.call(self.reload, op["fault"], lab)
        if not r.ok:
            r.exc = None
            r = e.must(self.reload, lab + "-again")
        S = r.value.literature
        for k in sorted(set(FUNS) | set(POINTS)) if rng_all(op) else [op["k"]]:
            d = {"op": "fun" if k in FUNS else "pt", "k": k, "y": None, "r": op["r"]}
            fn, judge = self.make(e, d, S, lab + "-" + k)
            judge(e.must(fn, lab + "-" + k).value)
        if len(S) != len(BASE):
            e.fail("count", "%s: loaded again, the literature has %d entries, not %d" % (lab, len(S), len(BASE)))
        e.cover("reload", (op["fault"] or {}).get("kind"))

    def run(self, case, e):
        for h in ALL:
            h.__dict__.pop("_sim_addr", None)
        order = list(BASE)
        random.Random(case["shuffle"]).shuffle(order)
        LT.literature = HY.Hypothesis_Set(order)
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            if op["op"] == "reload":
                self.do_reload(e, op, lab)
            elif op["op"] == "threads":
                qs = [self.make(e, d, LT.literature, "%s/%d" % (lab, i)) for i, d in enumerate(op["fns"])]
                rs = e.threads([q[0] for q in qs], op["sched"])
                for q, r in zip(qs, rs):
                    if not r.ok:
                        e.fail("concurrent", "%s: a concurrent reader raised %s: %s" % (lab, type(r.exc).__name__, r.exc))
                    q[1](r.value)
            else:
                fn, judge = self.make(e, op, LT.literature, lab)
                judge(self.ask(e, fn, op["fault"], lab))
            if {id(h) for h in LT.literature.to_list()} != IDS:
                e.fail("literature", "%s: a question changed the literature: it has %d entries, had %d" % (lab, len(LT.literature), len(IDS)))


IDS = {id(h) for h in BASE}


def env_ref():
    return RF_.Reference.make("Nobody", 1999)


def rng_all(op):
    return op["r"] % 3 == 0


import gc  # noqa: E402
ALL = [h for h in gc.get_objects() if isinstance(h, HY.Hypothesis)]
RELOAD = compile(env.REAL_OPEN(SRC + "/literature.py", encoding="utf8").read(), SRC + "/literature.py", "exec")

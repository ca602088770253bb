"""B01 best bounds on beta."""
from work import *  # noqa: F401,F403
from work import (Workload, F, gen_interrupt, gen_schedule, gen_ref, build_ref, ref_year, HY, fr, un)
import models as MD
import bound_beta as BB
import exponent_pair as EP
import functions as FN
import literature as LT
from work_mu import rat, gen_pair


def gen_dom(rng, lo, hi, grid):
    a, b = sorted((rng.choice(grid), rng.choice(grid)))
    if a == b:
        if rng.random() < 0.15:
            return [fr(a), fr(a), True, True]
        a, b = lo, hi
    return [fr(a), fr(b), rng.random() < 0.8, rng.random() < 0.7]


def build_aff(d, cls=None):
    return FN.Affine(un(d["m"]), un(d["c"]), FN.Interval(un(d["d"][0]), un(d["d"][1]), d["d"][2], d["d"][3]))


def piece(d, k):
    return (un(d["m"]), un(d["c"]), un(d["d"][0]), un(d["d"][1]), d["d"][2], d["d"][3], k)


def in_dom(d, x):
    a, b = un(d["d"][0]), un(d["d"][1])
    return (a < x or (a == x and d["d"][2])) and (x < b or (x == b and d["d"][3]))


def sample_points(ps, dom, extra=()):
    """All breakpoints and crossings, and a point between each two of them."""
    xs = {dom[0], dom[1]} | set(extra)
    for i, p in enumerate(ps):
        xs |= {p[2], p[3]}
        for q in ps[:i]:
            if p[0] != q[0]:
                xs.add((q[1] - p[1]) / (p[0] - q[0]))
    xs = sorted(x for x in xs if dom[0] <= x <= dom[1])
    return sorted(set(xs) | {(a + b) / 2 for a, b in zip(xs, xs[1:])})


class BestBeta(Workload):
    pid = "B01"
    cases = {"quick": 4000, "thorough": 60000}
    rule = ("seeded histories of additions and best-bound queries over sets of up to 8 bounds on beta with arbitrary "
            "rational slopes and open, closed, overlapping, nested and degenerate domains, directly and through "
            "exponent pairs and the D transform, with interrupted queries that are retried and concurrent readers; "
            "non-trivial when at least two bounds are best somewhere; distinct by event log")
    real = ["bound_beta.py", "functions.py (Affine, Interval)", "exponent_pair.py", "hypotheses.py", "literature.py (D transform)"]

    def generate(self, rng, tier):
        g = rng.choice([[F(0), F(1, 2)], [F(0), F(1, 4), F(1, 2)], [F(i, 12) for i in range(7)], [F(i, 10) for i in range(11)],
                        [F(0), F(49, 144), F(3, 7), F(1, 2), F(1, 3)]])
        n = rng.randint(1, 8)
        hyps = []
        for _ in range(n):
            r = rng.random()
            if r < 0.15 and hyps:
                d = dict(rng.choice(hyps))
                if d["k"] == "beta" and rng.random() < 0.5:
                    d["d"] = gen_dom(rng, F(0), F(1, 2), g)
                hyps.append(d)
            elif r < 0.8:
                if rng.random() < 0.6:
                    a, b = gen_pair(rng)
                    m, c = b - a, a
                else:
                    m, c = rat(rng, -1, 1, 12), rat(rng, 0, 1, 12)
                hyps.append({"k": "beta", "m": fr(m), "c": fr(c), "d": gen_dom(rng, F(0), F(1, 2), g), "ref": gen_ref(rng)})
            else:
                a, b = gen_pair(rng)
                hyps.append({"k": "pair", "a": fr(a), "b": fr(b), "ref": gen_ref(rng)})
        ops = []
        for _ in range(rng.randint(2, 8)):
            o = rng.choice(["add", "add", "best", "best", "best", "dom", "pairs", "threads", "minmax"])
            op = {"op": o, "fault": None}
            if o == "add":
                op["h"] = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
            elif o in ("best", "dom"):
                op["fault"] = gen_interrupt(rng, 3000) if rng.random() < 0.3 else None
                if o == "dom":
                    a, b = sorted((rng.choice(g), rng.choice(g)))
                    op["d"] = [fr(a), fr(b if b > a else a + F(1, 8)), rng.random() < 0.7, rng.random() < 0.7]
            elif o == "pairs":
                op["D"] = rng.random() < 0.5
                op["add"] = rng.random() < 0.6
            elif o == "minmax":
                op["i"], op["js"] = rng.randrange(n), [rng.randrange(n) for _ in range(rng.randint(1, 2))]
                op["max"] = rng.random() < 0.6
                op["fault"] = gen_interrupt(rng, 600) if rng.random() < 0.3 else None
            elif o == "threads":
                k = rng.randint(2, 3)
                op["k"] = k
                op["sched"] = gen_schedule(rng, k, 1500, rng.choice([3, 30, 200]))
            ops.append(op)
        return {"hyps": hyps, "init": rng.sample(range(n), rng.randint(0, n)), "ops": ops}

    def run(self, case, e):
        specs = case["hyps"]
        if "_sim_addr" in LT.D_transform_hypothesis.__dict__:
            import env
            LT.D_transform_hypothesis._sim_addr = env.W.new_addr()
        H = []
        for d in specs:
            if d["k"] == "beta":
                H.append(HY.Hypothesis("beta bound", "Upper bound on beta", BB.Bound_beta(build_aff(d)), "See", build_ref(d["ref"])))
            else:
                H.append(EP.literature_exp_pair(un(d["a"]), un(d["b"]), build_ref(d["ref"])))
        S = HY.Hypothesis_Set([H[i] for i in case["init"]])
        M = set(case["init"])
        extra = []                         # (piece spec, hypothesis) derived bounds added to the set

        def members():
            out = [(specs[i], H[i]) for i in sorted(M) if specs[i]["k"] == "beta"]
            return out + extra

        def untouched(lab):
            for d, h in members():
                f = h.data.bound
                if (F(f.m), F(f.c), F(f.domain.x0), F(f.domain.x1), f.domain.include_lower, f.domain.include_upper) != (
                        un(d["m"]), un(d["c"]), un(d["d"][0]), un(d["d"][1]), d["d"][2], d["d"][3]):
                    e.fail("input-changed", "%s: the hypothesis on %s now reads %s" % (lab, d["d"], f))
                if f.label is not None:
                    e.fail("input-changed", "%s: a query left working data on the hypothesis %s" % (lab, f))

        for n, op in enumerate(case["ops"]):
            o = op["op"]
            lab = "%s#%d" % (o, n)
            if o == "add":
                e.must(lambda: S.add_hypotheses([H[i] for i in op["h"]]), lab)
                M |= set(op["h"])
            elif o in ("best", "dom"):
                dom = op.get("d") or ["0", "1/2", True, True]
                if o == "best":
                    fn = lambda: BB.compute_best_beta_bounds(S)
                else:
                    iv = FN.Interval(un(dom[0]), un(dom[1]), dom[2], dom[3])
                    fn = lambda: BB.compute_best_beta_bounds(S, iv)
                r = e.must(fn, lab, op["fault"])
                if not r.ok:
                    e.probe("faulted_query")
                    untouched(lab)
                    r = e.must(fn, lab + "-retry")
                self.judge(e, r.value, members(), dom, lab)
            elif o == "threads":
                fns = [lambda: BB.compute_best_beta_bounds(S)] * op["k"]
                for r in e.threads(fns, op["sched"]):
                    if not r.ok:
                        e.fail("concurrent-query", "%s: a concurrent query raised %s: %s" % (lab, type(r.exc).__name__, r.exc))
                    self.judge(e, r.value, members(), ["0", "1/2", True, True], lab)
            elif o == "pairs":
                T = HY.Hypothesis_Set(list(S))
                if op["D"]:
                    T.add_hypothesis(LT.D_transform_hypothesis)
                r = e.must(lambda: BB.exponent_pairs_to_beta_bounds(T), lab)
                got = list(r.value)
                for i in sorted(M):
                    d = specs[i]
                    if d["k"] != "pair":
                        continue
                    k, l = un(d["a"]), un(d["b"])
                    mine = [g for g in got if H[i] in g.dependencies]
                    direct = [g for g in mine if len(g.dependencies) == 1]
                    if len(direct) != 1 or (direct[0].data.bound.m, direct[0].data.bound.c) != (l - k, k):
                        e.fail("pair-to-beta", "%s: the pair (%s, %s) gave %s" % (lab, k, l, [str(x.data) for x in direct]))
                    if op["D"]:
                        ds = [g for g in mine if LT.D_transform_hypothesis in g.dependencies]
                        den = 5 * k + 3 * l + 2
                        two = [((6 * k + 5 * l + 2) / (2 * den), (5 * k + l + 2) / (8 * den)), (F(2, 3), F(1, 12))]
                        for x in [F(j, 24) for j in range(13)]:
                            v = max(a * x + b for a, b in two)
                            hit = [g.data.bound for g in ds if g.data.bound.domain.contains(x)]
                            if len(hit) != 1 or hit[0].m * x + hit[0].c != v:
                                e.fail("pair-to-beta", "%s: the D transform of (%s, %s) at %s gives %s, expected %s" % (
                                    lab, k, l, x, [str(z) for z in hit], v))
                if op["add"]:
                    for g in got:
                        f = g.data.bound
                        if not any(h is g for _d, h in extra):
                            extra.append(({"k": "beta", "m": fr(f.m), "c": fr(f.c),
                                           "d": [fr(f.domain.x0), fr(f.domain.x1), f.domain.include_lower, f.domain.include_upper]}, g))
                    e.must(lambda: S.add_hypotheses(got), lab + "-add")
            elif o == "minmax":
                ids = [op["i"]] + op["js"]
                if any(specs[i]["k"] != "beta" for i in ids):
                    continue
                a = build_aff(specs[op["i"]])
                bs = [build_aff(specs[j]) for j in op["js"]]
                mx = op["max"]
                fn = (lambda: a.max_with(bs)) if mx else (lambda: a.min_with(bs))
                r = e.must(fn, lab, op["fault"])
                if not r.ok:
                    r = e.must(fn, lab + "-retry")
                sg = -1 if mx else 1
                ps = []
                for i in ids:
                    p = piece(specs[i], i)
                    ps.append((sg * p[0], sg * p[1]) + p[2:])
                dom = (min(p[2] for p in ps), max(p[3] for p in ps))
                for x in sample_points(ps, dom):
                    v, _ = MD.affine_min(ps, x)
                    hit = [q for q in r.value if q.domain.contains(x)]
                    if (v is None) != (not hit) or len(hit) > 1 or (hit and sg * (hit[0].m * x + hit[0].c) != v):
                        e.fail("minmax", "%s: the %s at %s is %s, pieces there: %s" % (
                            lab, "maximum" if mx else "minimum", x, None if v is None else sg * v, [str(q) for q in hit]))
                for i, f in zip(ids, [a] + bs):
                    d = specs[i]
                    if (f.m, f.c, f.domain.x0, f.domain.x1, f.domain.include_lower, f.domain.include_upper) != (
                            un(d["m"]), un(d["c"]), un(d["d"][0]), un(d["d"][1]), d["d"][2], d["d"][3]):
                        e.fail("input-changed", "%s: comparing functions changed %s to %s" % (lab, d, f))
                e.probe("minmax")
            untouched(lab)
            e.cover(o, len(members()), bool(op.get("fault")))

    def judge(self, e, res, mem, dom, lab):
        ps = [piece(d, i) for i, (d, _h) in enumerate(mem)]
        if len(ps) < 2:
            if [id(h) for h in res] != [id(h) for _d, h in mem]:
                e.fail("beta-single", "%s: with %d bounds the best bounds are %r" % (lab, len(ps), res))
            return
        a, b = un(dom[0]), un(dom[1])
        used = set()
        for x in sample_points(ps, (a, b)):
            hit = [h for h in res if h.data.bound.domain.contains(x)]
            inside = (a < x or dom[2]) and (x < b or dom[3])
            if not inside:
                if hit:
                    e.fail("beta-domain", "%s: a piece covers %s, outside the domain %s" % (lab, x, dom))
                continue
            v, ids = MD.affine_min(ps, x)
            if v is None:
                if hit:
                    e.fail("beta-unfounded", "%s: nothing bounds beta(%s) but the answer is %s" % (lab, x, hit[0].data))
                continue
            if not hit:
                e.fail("beta-gap", "%s: beta(%s) is bounded by %s but no piece covers it" % (lab, x, v))
            for h in hit:
                f = h.data.bound
                g = F(f.m) * x + F(f.c)
                if g != v:
                    e.fail("beta-value", "%s: best bound on beta(%s) given as %s, the hypotheses give %s" % (lab, x, g, v))
            if len(hit) > 1:
                e.fail("beta-overlap", "%s: %d pieces cover %s" % (lab, len(hit), x))
            used.add(id(hit[0]))
        objs = {id(h): d for d, h in mem}
        for h in res:
            f = h.data.bound
            if id(h) in objs:
                continue
            if f.label is not None:
                e.fail("beta-label", "%s: a returned bound carries working data %r" % (lab, f.label))
            deps = list(h.dependencies)
            if len(deps) != 1 or id(deps[0]) not in objs:
                e.fail("beta-source", "%s: the piece %s cites %r" % (lab, f, deps))
            d = objs[id(deps[0])]
            for x in (f.domain.x0, f.domain.x1, (F(f.domain.x0) + F(f.domain.x1)) / 2):
                if f.domain.contains(x) and (not in_dom(d, F(x)) or un(d["m"]) * x + un(d["c"]) != f.m * x + f.c):
                    e.fail("beta-source", "%s: the piece %s does not follow from the cited bound %s" % (lab, f, d))
            y = h.reference.year()
            if y != deps[0].reference.year():
                e.fail("beta-year", "%s: a piece of a bound from %s is dated %s" % (lab, deps[0].reference.year(), y))
        e.log("pieces", [(str(h.data.bound.m), str(h.data.bound.domain)) for h in res])
        if len(used) >= 2:
            e.probe("nontrivial")

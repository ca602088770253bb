"""M01 bounds on mu, H02 cached hulls, E01 exponent-pair proofs."""
import copy
from itertools import combinations

from work import *  # noqa: F401,F403
from work import (Workload, F, HarnessError, gen_interrupt, gen_solver, gen_console, gen_schedule, gen_ref, build_ref,
                  ref_year, HY, fr, un)
import models as MD
import bound_mu as BM
import exponent_pair as EP
import bound_beta as BB
import functions as FN
import literature as LT
from constants import Proof_Optimization_Method as POM

TOL = 1e-9
TR = {"A": LT.A_transform_hypothesis, "B": LT.B_transform_hypothesis, "C": LT.C_transform_hypothesis}


def redraw_transforms():
    for t in "ABC":
        if "_sim_addr" in TR[t].__dict__:
            TR[t]._sim_addr = env_W().new_addr()


def env_W():
    import env

    return env.W


def rat(rng, lo, hi, den=None):
    lo, hi = F(lo), F(hi)
    d = den or rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 20, 30, 42, 84, 97])
    a = -((-lo.numerator * d) // lo.denominator)
    b = (hi.numerator * d) // hi.denominator
    if a > b:
        return lo + (hi - lo) * F(rng.randint(0, 8), 8)
    return F(rng.randint(a, b), d)


def gen_pair(rng):
    r = rng.random()
    if r < 0.12:
        return (F(0), F(1))
    if r < 0.2:
        return rng.choice([(F(1, 6), F(2, 3)), (F(1, 2), F(1, 2)), (F(13, 84), F(55, 84)), (F(2, 7), F(4, 7)), (F(1, 14), F(11, 14))])
    # 0 <= k <= 1/2 <= l <= 1, biased towards useful pairs
    k = rat(rng, 0, F(1, 2))
    l = rat(rng, F(1, 2), 1)
    if k + l > 1 and rng.random() < 0.8:
        k, l = F(1, 2) - k, F(3, 2) - l
    return (k, l)


def gen_mu(rng):
    s = rat(rng, F(1, 2), F(19, 20)) if rng.random() < 0.7 else rat(rng, F(1, 20), F(1, 2))
    t = MD.trivial_mu(s)
    return (s, t * F(rng.randint(0, 12), 10))


def gen_hyp(rng, kinds):
    k = rng.choice(kinds)
    ref = gen_ref(rng, ["lit", "lit", "lit", "unknown", "classical", "trivial", "conjectured"], 1920, 2020)
    if k == "mu":
        s, m = gen_mu(rng)
        return {"k": "mu", "s": fr(s), "m": fr(m), "ref": ref}
    if k == "pair":
        a, b = gen_pair(rng)
        d = {"k": "pair", "a": fr(a), "b": fr(b), "ref": ref}
        if rng.random() < 0.4:
            d["cx"] = rng.randint(1, 6)
        return d
    if k == "tr":
        return {"k": "tr", "t": rng.choice("ABC")}
    if k == "beta":
        d = rng.choice([(F(0), F(1, 2)), (F(0), F(1, 2)), tuple(sorted((rat(rng, 0, F(1, 2)), rat(rng, 0, F(1, 2)))))])
        if d[0] == d[1]:
            d = (F(0), F(1, 2))
        a, b = gen_pair(rng)
        return {"k": "beta", "m": fr(b - a), "c": fr(a), "d": [fr(d[0]), fr(d[1])], "ref": ref}
    return {"k": "other", "ref": ref}


def build(d):
    k = d["k"]
    if k == "mu":
        return BM.literature_bound_mu(un(d["s"]), un(d["m"]), build_ref(d["ref"]))
    if k == "pair":
        h = EP.literature_exp_pair(un(d["a"]), un(d["b"]), build_ref(d["ref"]))
        for i in range(d.get("cx", 0)):        # a result with a longer proof
            h.add_dependency(HY.Hypothesis("step %d" % i, "Step", "step", "See", build_ref(["unknown", None])))
        return h
    if k == "tr":
        return TR[d["t"]]
    if k == "beta":
        iv = FN.Interval(un(d["d"][0]), un(d["d"][1]), True, True)
        ref = build_ref(d["ref"])
        return HY.Hypothesis("beta bound", "Upper bound on beta", BB.Bound_beta(FN.Affine(un(d["m"]), un(d["c"]), iv)),
                             "See", ref)
    return HY.Hypothesis("noise", "Zero density estimate", "x", "See", build_ref(d["ref"]))


class Facts:
    """What a model store contains, by kind."""

    def __init__(self, specs):
        self.mu = [(un(d["s"]), un(d["m"])) for d in specs if d["k"] == "mu"]
        self.pairs = [(un(d["a"]), un(d["b"])) for d in specs if d["k"] == "pair"]
        self.trs = sorted({d["t"] for d in specs if d["k"] == "tr"})
        self.beta = [(un(d["m"]), un(d["c"]), un(d["d"][0]), un(d["d"][1])) for d in specs if d["k"] == "beta"]


def beta_pairs(f):
    """Exponent pairs implied by the beta bounds through their upper hull, or []."""
    if not f.beta:
        return []
    xs = sorted({x for b in f.beta for x in (b[2], b[3])})
    # crossings are breakpoints of the minimum too
    for i, b in enumerate(f.beta):
        for c in f.beta[:i]:
            if b[0] != c[0]:
                x = (c[1] - b[1]) / (b[0] - c[0])
                xs.append(x)
    xs = sorted({x for x in xs if 0 <= x <= F(1, 2)})
    if not xs or xs[0] != 0 or xs[-1] != F(1, 2):
        return []
    pts = [(F(0), F(0)), (F(1, 2), F(0))]
    for u, v in zip(xs, xs[1:]):
        mid = (u + v) / 2
        act = [b for b in f.beta if b[2] <= mid <= b[3]]
        if not act:
            return None
        b = min(act, key=lambda q: q[0] * mid + q[1])
        pts += [(u, b[0] * u + b[1]), (v, b[0] * v + b[1])]
    H = MD.convex_hull(pts)
    out = []
    for i in range(len(H)):
        p, q = H[i], H[(i + 1) % len(H)]
        if p[0] == q[0] or (p[1] == 0 and q[1] == 0):
            continue
        m = (q[1] - p[1]) / (q[0] - p[0])
        c = p[1] - m * p[0]
        out.append((c, m + c))
    return out


def check_pair_proof(e, h, members, lab, depth=0):
    """Every step of an exponent pair's derivation is valid and ends in members."""
    if depth > 60:
        e.fail("proof", "%s: derivation deeper than 60 steps" % lab)
    if id(h) in members:
        return
    deps = list(h.dependencies)
    p = (h.data.k, h.data.l)
    if not deps:
        if h is EP.trivial_exp_pair or p == (0, 1):
            return
        e.fail("proof", "%s: the derivation of %s rests on %r, which is not among the hypotheses" % (lab, p, h.name))
    ps = [d for d in deps if d.hypothesis_type == "Exponent pair"]
    ts = [d for d in deps if d.hypothesis_type == "Exponent pair transform"]
    bs = [d for d in deps if d.hypothesis_type == "Upper bound on beta"]
    for d in ts:
        if id(d) not in members:
            e.fail("proof", "%s: %s uses the transform %r, which is not among the hypotheses" % (lab, p, d.name))
    if bs:
        # the line must dominate the least of the cited bounds everywhere on [0, 1/2]
        for x in [F(i, 24) for i in range(13)] + [b.data.bound.domain.x0 for b in bs] + [b.data.bound.domain.x1 for b in bs]:
            vals = [b.data.bound.m * x + b.data.bound.c for b in bs
                    if b.data.bound.domain.x0 <= x <= b.data.bound.domain.x1]
            if 0 <= x <= F(1, 2) and vals and float(min(vals) - ((p[1] - p[0]) * x + p[0])) > TOL:
                e.fail("proof", "%s: the pair %s does not follow from the cited bounds on beta at %s" % (lab, p, x))
        for b in bs:
            if id(b) not in members:
                for q in b.dependencies:
                    if id(q) not in members:
                        e.fail("proof", "%s: %s rests on a bound on beta that is not among the hypotheses" % (lab, p))
        return
    if ts:
        if len(ps) != 1 or len(ts) != 1:
            e.fail("proof", "%s: a transformed pair cites %d pairs and %d transforms" % (lab, len(ps), len(ts)))
        key = [k for k in TR if TR[k] is ts[0]][0]
        want = MD.TRANS[key]((ps[0].data.k, ps[0].data.l))
        if want != p:
            e.fail("proof", "%s: transform %s of %s is %s, the derivation claims %s" % (
                lab, key, (ps[0].data.k, ps[0].data.l), want, p))
    else:
        H = MD.convex_hull([(F(q.data.k), F(q.data.l)) for q in ps])
        if not MD.in_hull(H, p):
            e.fail("proof", "%s: %s is not a convex combination of the cited pairs %s" % (
                lab, p, [(str(q.data.k), str(q.data.l)) for q in ps]))
    for q in ps:
        check_pair_proof(e, q, members, lab, depth + 1)


def check_mu_proof(e, h, members, lab, depth=0):
    s, m = F(h.data.sigma), F(h.data.mu)
    if id(h) in members:
        return
    deps = list(h.dependencies)
    if not deps:
        if m >= MD.trivial_mu(s):
            return
        e.fail("proof", "%s: mu(%s) <= %s rests on %r, which is not among the hypotheses" % (lab, s, m, h.name))
    pts = []
    for d in deps:
        if d.hypothesis_type == "Exponent pair":
            pts.append((d.data.l - d.data.k, d.data.k))
        elif d.hypothesis_type == "Upper bound on mu":
            pts.append((F(d.data.sigma), F(d.data.mu)))
        else:
            e.fail("proof", "%s: a bound on mu cites %r" % (lab, d.hypothesis_type))
    pts += [(1 - a, b + a - F(1, 2)) for a, b in pts]
    v = MD.eval_hull(MD.lower_hull(pts), s)
    if v is None or v > m:
        e.fail("proof", "%s: mu(%s) <= %s does not follow from the cited facts %s" % (
            lab, s, m, [d.description for d in deps]))
    for d in deps:
        if d.hypothesis_type == "Exponent pair":
            check_pair_proof(e, d, members, lab, depth + 1)
        else:
            check_mu_proof(e, d, members, lab, depth + 1)


class MuBase(Workload):
    real = ["bound_mu.py", "exponent_pair.py", "hypotheses.py", "functions.py", "literature.py (A, B, C transforms)", "scipy ConvexHull", "cdd"]
    mix = {}
    kinds = ["mu", "mu", "pair", "pair", "tr", "other"]
    rule = ""

    def simplify(self, case):
        used = set()
        for op in case["ops"]:
            used |= {op[k] for k in ("h",) if k in op} | set(op.get("more", []))
        for i in range(len(case["hyps"])):
            if case["hyps"][i]["k"] == "other":
                continue
            if i not in used:
                c = copy.deepcopy(case)
                c["hyps"][i] = {"k": "other", "ref": ["unknown", None]}
                c["init"] = [x for x in c["init"] if x != i]
                yield c

    def generate(self, rng, tier):
        n = rng.randint(1, 9)
        hyps = [gen_hyp(rng, self.kinds) for _ in range(n)]
        init = rng.sample(range(n), rng.randint(0, n))
        ops, ns = [], 1
        names, ws = zip(*self.mix.items())
        for _ in range(rng.randint(3, 16)):
            o = rng.choices(names, ws)[0]
            op = {"op": o, "s": rng.randrange(ns), "fault": None}
            if o == "copy":
                if ns >= 4:
                    continue
                ns += 1
            elif o in ("add", "addm"):
                op["h"] = rng.randrange(n)
                if o == "addm":
                    op["form"] = rng.choice(["list", "set", "store", "tuple", "gen", "one"])
                    op["more"] = [rng.randrange(n) for _ in range(rng.choice([0, 0, 1, 2]))]
            elif o == "best":
                op["x"] = fr(rng.choice([rat(rng, F(1, 100), F(99, 100)), F(1, 2), rat(rng, -1, 2), rat(rng, F(1, 2), F(9, 10))]))
                op["fault"] = self.gfault(rng)
            elif o == "piece":
                a, b = sorted((rng.choice([F(0), F(1, 2), rat(rng, 0, 1)]), rng.choice([F(1), F(1, 2), rat(rng, 0, 1)])))
                if rng.random() < 0.2:
                    a -= rat(rng, 0, 1)
                if rng.random() < 0.2:
                    b += rat(rng, 0, 1)
                if a == b:
                    b += F(1, 4)
                op["x0"], op["x1"] = fr(a), fr(b)
                op["fault"] = self.gfault(rng)
            elif o == "prove":
                op["x"] = fr(rat(rng, F(1, 20), F(19, 20)))
                op["d"] = rng.choice([-5, -1, -1, 1, 5, 20])
                op["q"] = rng.choice([1000, 1000, 1000, 10**6, 10**12 * 7, 10**20 * 3])
                op["fault"] = rng.choice([None, None, gen_console(rng, 2), self.gfault(rng)])
            elif o == "lemma":
                op["how"] = rng.choice(["triv", "feq", "conv", "pair", "chain"])
                op["x"] = fr(rng.choice([rat(rng, F(-1, 2), F(3, 2)), rat(rng, 0, 1), F(0), F(1), F(1, 2)]))
                op["h"], op["h2"] = rng.randrange(n), rng.randrange(n)
                op["t"] = fr(rng.choice([F(0), F(1), rat(rng, 0, 1), rat(rng, 0, 1)]))
                op["fault"] = rng.choice([None, gen_interrupt(rng, 60)])
            elif o == "hull":
                op["fault"] = self.gfault(rng)
            elif o == "member":
                op["p"] = [fr(x) for x in gen_pair(rng)]
                op["mixw"] = [rng.randint(0, 5) for _ in range(5)]
                op["mode"] = rng.choice(["hull", "out", "free"])
                op["red"], op["deep"] = rng.random() < 0.7, rng.random() < 0.5
                op["fault"] = self.gfault(rng)
            elif o == "best_proof":
                op["p"] = [fr(x) for x in gen_pair(rng)]
                op["mixw"] = [rng.randint(0, 5) for _ in range(5)]
                op["mode"] = rng.choice(["hull", "hull", "free"])
                op["how"] = rng.choice(["DATE", "DATE", "NONE", "COMPLEXITY"])
                op["fault"] = self.gfault(rng)
            elif o == "gen":
                op["depth"] = rng.randint(1, 5)
                op["prune"] = rng.random() < 0.6
                op["fault"] = self.gfault(rng)
            elif o == "frombeta":
                op["fault"] = self.gfault(rng)
            elif o == "threads":
                k = rng.randint(2, 3)
                op["xs"] = [fr(rat(rng, F(1, 20), F(19, 20))) for _ in range(k)]
                op["kinds"] = [rng.choice(["best", "best", "piece", "hull"]) for _ in range(k)]
                op["sched"] = gen_schedule(rng, k, 1500, rng.choice([4, 30, 200]))
            ops.append(op)
        return {"hyps": hyps, "init": init, "ops": ops}

    def gfault(self, rng):
        if rng.random() < 0.7:
            return None
        return rng.choice([gen_interrupt(rng, 4000), gen_interrupt(rng, 400), gen_solver(rng, ["ConvexHull", "ConvexHull", "LinProg", "Polyhedron"], 7)])

    # ------------------------------------------------------------------ run
    def run(self, case, e):
        redraw_transforms()
        specs = case["hyps"]
        H = [build(d) for d in specs]
        cache = {}
        S = [HY.Hypothesis_Set([H[i] for i in case["init"]])]
        M = [list(case["init"])]          # model: member indices
        X = [[]]                          # derived hypotheses proved into each set (already implied)
        for n, op in enumerate(case["ops"]):
            o, s = op["op"], op["s"]
            if s >= len(S):
                continue
            lab = "%s#%d" % (o, n)
            f = Facts([specs[i] for i in sorted(set(M[s]))])
            members = {id(H[i]) for i in M[s]} | {id(x) for x in X[s]}
            if o == "copy":
                r = e.must(lambda: copy.copy(S[s]), lab)
                S.append(r.value)
                M.append(list(M[s]))
                X.append(list(X[s]))
            elif o == "add":
                e.must(lambda: S[s].add_hypothesis(H[op["h"]]), lab)
                M[s].append(op["h"])
                e.probe("adds")
            elif o == "addm":
                hs = [op["h"]] + (op.get("more", []) if op.get("form") != "one" else [])
                objs = [H[i] for i in hs]
                form = op.get("form", "list")
                arg = {"list": lambda: objs, "set": lambda: set(objs), "store": lambda: HY.Hypothesis_Set(objs),
                       "tuple": lambda: tuple(objs), "gen": lambda: (x for x in objs), "one": lambda: objs[0]}[form]()
                e.must(lambda: S[s].add_hypotheses(arg), lab)
                M[s].extend(hs)
                e.probe("adds")
            elif o == "best":
                x = un(op["x"])
                lo, hi = MD.mu_range(x, f.mu, f.pairs, f.trs, cache)
                fn = lambda: BM.best_mu_bound(x, S[s])
                r = e.must(fn, lab, op["fault"])
                if not r.ok:
                    e.probe("faulted_query")
                    r = e.must(fn, lab + "-retry")
                self.judge(e, r.value, x, lo, hi, members, lab)
            elif o == "piece":
                self.piecewise(e, op, S[s], f, cache, lab)
            elif o == "lemma":
                self.lemma(e, op, H, specs, lab)
            elif o == "prove":
                self.prove(e, op, S, M, X, s, f, members, cache, lab)
            elif o == "hull":
                fn = lambda: EP.compute_convex_hull(S[s])
                r = e.must(fn, lab, op["fault"])
                if not r.ok:
                    r = e.must(fn, lab + "-retry")
                self.judge_hull(e, r.value, f, members, lab)
            elif o == "member":
                self.member(e, op, S[s], M[s], H, f, members, lab)
            elif o == "best_proof":
                self.best_proof(e, op, S[s], [specs[i] for i in sorted(set(M[s]))], [H[i] for i in sorted(set(M[s]))], f, members, lab)
            elif o == "gen":
                self.gen(e, op, S[s], f, members, lab)
            elif o == "frombeta":
                self.frombeta(e, op, S[s], f, members, lab)
            elif o == "threads":
                fns = []
                for kd, x in zip(op["kinds"], op["xs"]):
                    if kd == "best":
                        fns.append(lambda x=un(x): BM.best_mu_bound(x, S[s]))
                    elif kd == "piece":
                        fns.append(lambda x=un(x): BM.best_mu_bound_piecewise(FN.Interval(min(x, F(1, 2)), max(x, F(3, 5))), S[s]))
                    else:
                        fns.append(lambda: EP.compute_convex_hull(S[s]))
                rs = e.threads(fns, op["sched"])
                for kd, x, r in zip(op["kinds"], op["xs"], rs):
                    x = un(x)
                    if not r.ok:
                        e.fail("concurrent-query", "%s: a concurrent %s query raised %s: %s" % (lab, kd, type(r.exc).__name__, r.exc))
                    if kd == "best":
                        lo, hi = MD.mu_range(x, f.mu, f.pairs, f.trs, cache)
                        self.judge(e, r.value, x, lo, hi, members, lab)
                    elif kd == "hull":
                        self.judge_hull(e, r.value, f, members, lab)
                    else:
                        self.judge_piece(e, r.value, min(x, F(1, 2)), max(x, F(3, 5)), f, cache, lab)
            # the sets themselves never change behind the user's back
            for i in range(len(S)):
                if len(S[i]) != len(set(M[i])) - sum(1 for _ in ()) - self.dups(M[i], specs) + len(X[i]):
                    e.fail("membership", "%s: set %d has %d members, expected %d" % (lab, i, len(S[i]), len(set(M[i])) + len(X[i])))
            e.cover(o, len(f.mu), len(f.pairs), "".join(f.trs), len(S), bool(op.get("fault")))

    def dups(self, idxs, specs):
        """Transforms are shared objects: two indices may name one object."""
        t = [specs[i]["t"] for i in set(idxs) if specs[i]["k"] == "tr"]
        return len(t) - len(set(t))

    # ------------------------------------------------------------- verdicts
    def judge(self, e, h, x, lo, hi, members, lab):
        if h is None or not hasattr(h, "data") or h.data.sigma != x:
            e.fail("mu-shape", "%s: asked for mu(%s), answered %r" % (lab, x, h))
        v = h.data.mu
        e.log("mu", x, v)
        if float(v - hi) > TOL:
            e.fail("mu-not-best", "%s: mu(%s) <= %s (%.9f) although the hypotheses imply %s (%.9f)" % (lab, x, v, v, hi, hi))
        if lo > F(v):
            e.fail("mu-unsound", "%s: mu(%s) <= %s (%.9f) although the hypotheses imply no better than %s (%.9f)" % (
                lab, x, v, v, lo, lo))
        check_mu_proof(e, h, members, lab)
        if 0 < x < 1 and v < MD.trivial_mu(x):
            e.probe("nontrivial")

    def lemma(self, e, op, H, specs, lab):
        """The single steps the best bound is made of, used on their own."""
        x, how = un(op["x"]), op["how"]

        def ask(fn):
            r = e.must(fn, lab, op["fault"])
            return (r if r.ok else e.must(fn, lab + "-retry")).value

        def expect(h, s, m, deps):
            if (h.data.sigma, h.data.mu) != (s, m):
                e.fail("lemma", "%s: %s gave mu(%s) <= %s, expected mu(%s) <= %s" % (lab, how, h.data.sigma, h.data.mu, s, m))
            if h.hypothesis_type != "Upper bound on mu" or {id(d) for d in h.dependencies} != {id(d) for d in deps}:
                e.fail("lemma", "%s: %s cites %s for mu(%s) <= %s, expected %s" % (
                    lab, how, sorted(d.name for d in h.dependencies), s, m, sorted(d.name for d in deps)))
            return h

        if how == "triv":
            expect(ask(lambda: BM.apply_trivial_mu_bound(x)), x, MD.trivial_mu(x), [])
            e.cover("lemma", how, x < 0, x > 1)
            return
        b = []
        for i in (op["h"], op["h2"]):
            if specs[i]["k"] == "mu":
                b.append(H[i])
            elif specs[i]["k"] == "pair":
                p = H[i]
                k, l = un(specs[i]["a"]), un(specs[i]["b"])
                b.append(expect(ask(lambda: BM.obtain_mu_bound_from_exponent_pair(p)), l - k, k, [p]))
            else:
                b.append(BM.bound_mu_trivial)
        q = [(F(y.data.sigma), F(y.data.mu)) for y in b]
        if how in ("feq", "chain"):
            c = expect(ask(lambda: BM.apply_functional_equation(b[0])), 1 - q[0][0], q[0][1] + q[0][0] - F(1, 2), [b[0]])
            if how == "chain":
                b[0], q[0] = c, (F(c.data.sigma), F(c.data.mu))
        if how in ("conv", "chain"):
            t = un(op["t"])
            expect(ask(lambda: BM.apply_mu_convexity(b[0], b[1], t)), q[0][0] + t * (q[1][0] - q[0][0]), q[0][1] + t * (q[1][1] - q[0][1]), b)
        e.cover("lemma", how)

    def piecewise(self, e, op, S, f, cache, lab):
        a, b = un(op["x0"]), un(op["x1"])
        fn = lambda: BM.best_mu_bound_piecewise(FN.Interval(a, b), S)
        r = e.must(fn, lab, op["fault"])
        if not r.ok:
            r = e.must(fn, lab + "-retry")
        self.judge_piece(e, r.value, a, b, f, cache, lab)

    def judge_piece(self, e, ps, a, b, f, cache, lab):
        segs = []
        for p in ps:
            if isinstance(p, tuple):
                segs.append((F(p[1]), F(p[2]), (lambda x: F(1, 2) - x) if "1/2" in p[0] else (lambda x: F(0))))
            else:
                segs.append((F(p.domain.x0), F(p.domain.x1), lambda x, p=p: p.m * x + p.c))
        xs = {a, b, (a + b) / 2} | {t for u, v, _ in segs for t in (u, v, (u + v) / 2)}
        xs |= {t for t in (F(0), F(1, 2), F(1)) if a <= t <= b}
        for x in sorted(xs):
            if not (a <= x <= b):
                e.fail("piecewise-domain", "%s: a piece reaches %s outside [%s, %s]" % (lab, x, a, b))
            vals = [g(x) for u, v, g in segs if u <= x <= v]
            if not vals:
                e.fail("piecewise-gap", "%s: no piece covers sigma = %s in [%s, %s]" % (lab, x, a, b))
            lo, hi = MD.mu_range(x, f.mu, f.pairs, f.trs, cache)
            for v in vals:
                if float(v - hi) > TOL or float(lo - v) > TOL:
                    e.fail("piecewise-value", "%s: the piecewise bound at %s is %.9f, the best bound is %.9f" % (lab, x, v, hi))
        e.probe("piecewise")

    def prove(self, e, op, S, M, X, s, f, members, cache, lab):
        x = un(op["x"])
        lo, hi = MD.mu_range(x, f.mu, f.pairs, f.trs, cache)
        want = (hi if op["d"] > 0 else lo) + F(op["d"], min(op.get("q", 1000), 10**6) if op["d"] > 0 else op.get("q", 1000))
        before = {id(h) for h in S[s]}
        r = e.must(lambda: BM.prove_mu_bound(x, want, S[s]), lab, op["fault"])
        new = [h for h in S[s] if id(h) not in before]
        if len(new) > 1:
            e.fail("prove", "%s: proving one bound added %d hypotheses" % (lab, len(new)))
        for h in new:
            if h.hypothesis_type != "Upper bound on mu" or F(h.data.sigma) != x or h.data.mu > want:
                e.fail("prove", "%s: proving mu(%s) <= %s recorded %r" % (lab, x, want, h.description))
            self.judge(e, h, x, lo, hi, members, lab)
            X[s].append(h)
        if r.ok:
            if op["d"] > 0:
                if not new or r.value is not new[0]:
                    e.fail("prove", "%s: mu(%s) <= %s is implied but was not proved (answer %r, %d new)" % (lab, x, want, r.value, len(new)))
                if "Proved" not in r.out:
                    e.fail("prove", "%s: a proved bound was not announced: %r" % (lab, r.out[:80]))
            elif new or r.value:
                e.fail("prove", "%s: mu(%s) <= %s is not implied but was recorded" % (lab, x, want))
        elif op["fault"] and op["fault"]["kind"] == "console" and op["d"] > 0 and not new:
            e.fail("prove-lost", "%s: the announcement failed and the proved bound on mu(%s) was lost" % (lab, x))

    def judge_hull(self, e, vs, f, members, lab):
        vs = list(vs)
        got = [(F(v.data.k), F(v.data.l)) if v.hypothesis_type == "Exponent pair" else None for v in vs]
        if None in got:
            e.fail("hull-kind", "%s: the hull of the exponent pairs contains %r" % (lab, [v.hypothesis_type for v in vs]))
        for v in vs:
            if id(v) not in members:
                e.fail("hull-member", "%s: the hull of the exponent pairs contains %r, which is not a hypothesis" % (lab, v.description))
        HG = MD.convex_hull(got)
        for p in f.pairs:
            if MD.hull_margin(HG, p) < -TOL and p not in got:
                e.fail("hull-stale", "%s: the pair (%s, %s) lies outside the hull %s" % (lab, p[0], p[1], [(str(a), str(b)) for a, b in got]))
        if len(HG) >= 3:
            e.probe("hull3")
            e.probe("nontrivial")

    def target(self, op, f):
        """A pair inside the hull of the known pairs, one outside, or a free one."""
        ps = f.pairs
        w = op["mixw"][: len(ps)]
        if op["mode"] == "hull" and ps and sum(w) > 0:
            t = sum(w)
            return (sum(F(a, t) * p[0] for a, p in zip(w, ps)), sum(F(a, t) * p[1] for a, p in zip(w, ps)))
        if op["mode"] == "out" and ps:
            i = max(range(len(w)), key=lambda j: w[j]) if w else 0
            return (ps[i][0] - F(op["mixw"][0] + 1, 40), ps[i][1] - F(op["mixw"][1], 50))
        return (un(op["p"][0]), un(op["p"][1]))

    def member(self, e, op, S, idxs, H, f, members, lab):
        k, l = self.target(op, f)
        fn = lambda: EP.construct_proof(k, l, S, reduce_dependencies=op["red"], deep_search=op["deep"])
        r = e.must(fn, lab, op["fault"])
        if not r.ok:
            r = e.must(fn, lab + "-retry")
        h = r.value
        HU = MD.convex_hull(f.pairs)
        inside = MD.in_hull(HU, (k, l))
        mg = MD.hull_margin(HU, (k, l)) if HU else -1.0
        if h is None:
            if (k, l) in f.pairs or (inside and (mg > TOL or len(HU) < 3)):
                e.fail("proof-missed", "%s: (%s, %s) follows from the known pairs by convexity but no proof was found" % (lab, k, l))
            e.probe("refused")
            return
        if not inside and not (len(HU) >= 3 and mg > -TOL):
            e.fail("proof-unsound", "%s: (%s, %s) is outside the hull of the known pairs but was proved" % (lab, k, l))
        if (h.data.k, h.data.l) != (k, l):
            e.fail("proof-shape", "%s: asked for (%s, %s), proved %r" % (lab, k, l, h.data))
        check_pair_proof(e, h, members, lab)
        e.probe("proved")
        if id(h) not in members:
            e.probe("nontrivial")
            if op["red"]:
                if len(h.dependencies) > 3:
                    e.fail("proof-size", "%s: a reduced proof cites %d pairs" % (lab, len(h.dependencies)))
                cand = [H[i] for i in sorted(set(idxs)) if H[i].hypothesis_type == "Exponent pair"]
                if not op["deep"]:
                    cand = list(EP.compute_convex_hull(S))
                best = None
                for tri in combinations(cand, min(3, len(cand))):
                    c = sum(1 + len(x.dependencies) for x in tri)
                    if (best is None or c < best) and MD.in_hull(
                            MD.convex_hull([(F(x.data.k), F(x.data.l)) for x in tri]), (k, l)):
                        best = c
                got = sum(1 + len(x.dependencies) for x in h.dependencies)
                if best is not None and got > best:
                    e.fail("proof-longer", "%s: the proof of (%s, %s) has length %d, one of length %d is available" % (
                        lab, k, l, got, best))

    def inside_range(self, f, p, extra_beta=True):
        """(certainly derivable, possibly derivable) over the transform orders."""
        base = set(f.pairs)
        if extra_beta and f.beta:
            bp = beta_pairs(f)
            if bp is None:
                return False, True
            base |= set(bp)
            if "B" in f.trs:
                base |= {MD.TB(q) for q in bp}
        sure, may = True, False
        for c in MD.closures(base, f.trs):
            HU = MD.convex_hull(list(c) + list(base))
            m = MD.hull_margin(HU, p) if HU else -1.0
            if len(HU) < 3:
                ok = may_ok = MD.in_hull(HU, p)
            else:
                ok, may_ok = m > TOL, m > -TOL
            if p in base:
                ok = may_ok = True
            sure &= ok
            may |= may_ok
        return sure, may

    def best_proof(self, e, op, S, specs, hs, f, members, lab):
        k, l = self.target(op, f)
        how = op["how"]
        if not f.pairs and not f.beta:
            return
        if how == "COMPLEXITY":
            # only for pairs within reach of a few rounds: the search is exponential otherwise
            if len(f.trs) > 2 or len(f.pairs) > 5 or f.beta or not MD.in_hull(MD.convex_hull(f.pairs), (k, l)):
                return
            if len(MD.convex_hull(f.pairs)) >= 3 and MD.hull_margin(MD.convex_hull(f.pairs), (k, l)) < 10 * TOL:
                return
        if how != "COMPLEXITY" and len(f.trs) > 2:
            base = set(f.pairs) | set(beta_pairs(f) or [])
            if max(len(MD.convex_hull(list(c))) for c in MD.closures(base, f.trs)) > 90:
                return              # the triangle search is cubic in the number of vertices
        fn = lambda: EP.find_best_proof(k, l, S, method=getattr(POM, how))
        if how == "DATE" and all(ref_year(d.get("ref", ["lit", 1]) if d["k"] != "tr" else ["lit", 1]) == "Unknown date" for d in specs):
            return
        r = e.must(fn, lab, op["fault"])
        if not r.ok:
            r = e.must(fn, lab + "-retry")
        h = r.value
        sure, may = self.inside_range(f, (k, l), True)
        if h is None:
            if sure:
                e.fail("best-proof-missed", "%s: (%s, %s) follows from the hypotheses but %s found no proof" % (lab, k, l, how))
            return
        if not may and how == "DATE" and f.beta:
            # with only the results of some year the bounds on beta may give other pairs
            for y in sorted({-1} | {ref_year(d["ref"]) for d in specs if d["k"] != "tr"} - {"Unknown date"}):
                sub = [d for d in specs if d["k"] == "tr" or ref_year(d["ref"]) == "Unknown date" or ref_year(d["ref"]) <= y]
                may = may or self.inside_range(Facts(sub), (k, l), True)[1]
        if not may:
            e.fail("best-proof-unsound", "%s: (%s, %s) does not follow from the hypotheses but %s proved it" % (lab, k, l, how))
        if (h.data.k, h.data.l) != (k, l):
            e.fail("best-proof-shape", "%s: asked for (%s, %s), proved %r" % (lab, k, l, h.data))
        check_pair_proof(e, h, members, lab)
        e.probe("best_proof_" + how)
        if how == "DATE":
            years = {id(x): (x.reference.year()) for x in hs}
            ys = sorted({y for y in years.values() if y != "Unknown date"})
            got = h.proof_date()
            for y in ys:
                sub = [d for d, x in zip(specs, hs) if years[id(x)] == "Unknown date" or years[id(x)] <= y]
                sure, may = self.inside_range(Facts(sub), (k, l), True)
                if sure:
                    if got > y:
                        e.fail("proof-date", "%s: (%s, %s) was provable in %s but the earliest proof found dates from %s" % (lab, k, l, y, got))
                    break

    def gen(self, e, op, S, f, members, lab):
        d, prune = op["depth"], op["prune"]
        if not prune and (len(f.pairs) * (2 ** len(f.trs)) ** d) > 400:
            prune = True
        fn = lambda: EP.compute_exp_pairs(S, d, prune)
        r = e.must(fn, lab, op["fault"])
        if not r.ok:
            r = e.must(fn, lab + "-retry")
        got = {(F(h.data.k), F(h.data.l)) for h in r.value}
        for h in r.value:
            check_pair_proof(e, h, members, lab)
            if (F(h.data.k), F(h.data.l)) in f.pairs and id(h) not in members:
                e.fail("replaced", "%s: the pair (%s, %s) of the store is given with another proof: %s" % (lab, h.data.k, h.data.l, h.proof))
        from itertools import permutations

        orders = list(permutations(f.trs)) or [()]
        if prune:
            HG = MD.convex_hull(list(got))
            good = False
            for o in orders:
                HC = MD.convex_hull(list(MD.closure(f.pairs, o, d)))
                if all(MD.hull_margin(HG, p) > -TOL or p in got for p in HC) and all(MD.hull_margin(HC, p) > -TOL or p in HC for p in HG):
                    good = True
                    break
        else:
            good = any(MD.closure(f.pairs, o, d, prune=False) == got for o in orders)
        if not good:
            e.fail("closure", "%s: %d rounds of %s over %s gave %s" % (
                lab, d, f.trs, [(str(a), str(b)) for a, b in f.pairs], sorted((str(a), str(b)) for a, b in got)[:12]))
        if f.trs and f.pairs:
            e.probe("closures")
            e.probe("nontrivial")

    def frombeta(self, e, op, S, f, members, lab):
        fn = lambda: EP.beta_bounds_to_exponent_pairs(S)
        r = e.must(fn, lab, op["fault"])
        if not r.ok:
            r = e.must(fn, lab + "-retry")
        want = beta_pairs(f) if len(f.beta) >= 1 else []
        if want is None or not want:
            # a gap in the bounds: only soundness (checked above for every answer)
            for h in r.value:
                check_pair_proof(e, h, members, lab)
            if want == [] and any((F(h.data.k), F(h.data.l)) not in f.pairs for h in r.value):
                e.fail("beta-duality", "%s: bounds on beta that do not cover [0, 1/2] gave pairs %s" % (lab, r.value))
            return
        got = {(F(h.data.k), F(h.data.l)) for h in r.value}
        for h in r.value:
            check_pair_proof(e, h, members, lab)
        base = set(f.pairs)
        w = set(want) | base
        if "B" in f.trs:
            w |= {MD.TB(q) for q in want}
        HG, HW = MD.convex_hull(list(got)), MD.convex_hull(list(w))
        if len(HG) < 3 or len(HW) < 3:
            if set(HG) != set(HW):
                if f.beta or f.pairs:
                    e.fail("beta-duality", "%s: beta bounds gave pairs %s, expected %s" % (lab, sorted(map(str, got)), sorted(map(str, w))))
            return
        for p in HW:
            if MD.hull_margin(HG, p) < -TOL:
                e.fail("beta-duality", "%s: the pair (%s, %s) follows from the beta bounds but is missing" % (lab, p[0], p[1]))
        for p in HG:
            if MD.hull_margin(HW, p) < -TOL:
                e.fail("beta-duality", "%s: the pair (%s, %s) does not follow from the beta bounds" % (lab, p[0], p[1]))
        if f.beta:
            e.probe("beta_duality")


class MuBounds(MuBase):
    pid = "M01"
    cases = {"quick": 6000, "thorough": 60000}
    mix = {"add": 3, "addm": 1, "copy": 1, "best": 5, "piece": 3, "prove": 2, "lemma": 1, "threads": 1}
    rule = ("seeded histories of 3-16 operations (add, copy, best bound at a point, piecewise bound, prove, the single steps a bound is made of, concurrent "
            "readers) over up to 4 sets of up to 9 hypotheses (mu bounds, exponent pairs, A/B/C transforms), with "
            "interruptions at any call, failing hull solver and failing console; non-trivial when some answer beats "
            "the convexity bound; distinct by event log")


class CachedHulls(MuBase):
    pid = "H02"
    cases = {"quick": 6000, "thorough": 60000}
    mix = {"add": 4, "addm": 2, "copy": 3, "best": 3, "hull": 4, "piece": 1, "member": 2, "prove": 1, "threads": 1}
    rule = ("seeded histories mixing mu queries and exponent-pair hull queries over aliasing copies of a set, with "
            "additions in between and interruptions or solver failures inside every query; non-trivial when some "
            "query used at least three hull vertices or beat the convexity bound; distinct by event log")


class ExponentPairs(MuBase):
    pid = "E01"
    cases = {"quick": 6000, "thorough": 48000}
    kinds = ["pair", "pair", "pair", "pair", "tr", "tr", "beta", "beta", "mu", "other"]
    mix = {"add": 3, "copy": 1, "hull": 1, "member": 4, "best_proof": 3, "gen": 3, "frombeta": 2}
    rule = ("seeded histories of additions, hull queries, membership proofs, best-proof searches by each method, "
            "transform closures and beta-duality conversions, interrupted at any call or with failing hull and LP "
            "solvers, then retried; non-trivial when a pair outside the hypotheses was proved; distinct by event log")

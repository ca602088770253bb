"""L01 large value regions, L02 conversions between kinds of large value estimates."""
import random

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_solver, gen_console, gen_ref, build_ref, ref_year, HY, fr, un
import env
from models_poly import MP, ev
from work_poly import fmt, to_model
from work_region import RM, polys_of
import polytope as PT
import region as RG
import large_values as LV
import zeta_large_values as ZL
import zero_density_estimate as ZD
import bound_beta as BB
import bound_mu as BM
import functions as FN

BIGV = F(1000000)
BOX = [(F(-1, 2), 1, 0, 0), (1, -1, 0, 0), (0, 0, 1, 0), (BIGV, 0, -1, 0), (0, 0, 0, 1), (BIGV, 0, 0, -1)]
COEFFS = [[2, -2, 0], [1, -2, 1], [4, -6, 1], [0, -4, 2], [3, -4, 0], [4, -8, 2], [6, -12, 2], [2, -3, 1], [6, -8, 1],
          [1, 0, 0], [0, 0, 1], [0, 0, 0], [5, -6, 0], [10, -13, 1], [12, -16, 1], [3, -3, 0], [9, -12, 1], [18, -24, 1]]


def gen_bounds(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 4])):
        b = list(rng.choice(COEFFS))
        if rng.random() < 0.4:
            b = [rng.randint(0, 8), -rng.randint(0, 10), rng.randint(-1, 2)]
        if rng.random() < 0.25:
            b = [F(v) / rng.choice([1, 2, 3, 5]) for v in b]
        out.append([fr(F(v)) for v in b])
    if rng.random() < 0.1:
        out.append(list(out[0]))
    return out


def bounds_model(bs, box=BOX):
    return RM("I", [RM("P", mp=MP(3, box)), RM("U", [RM("P", mp=MP(3, [tuple(b) + (F(-1),)])) for b in bs])])


def rows3(m):
    return sorted({r for p in m.leaves() for r in p.rows + p.eqs if any(r[1:])})


def lv_points(rng, rows, box, n):
    """Points of a box in general position, biased to small cells of the arrangement of rows."""
    d = len(box)
    out = []
    for _ in range(n):
        x = [a + (b - a) * F(rng.randint(1, 996), 997) for a, b in box]
        for i in rng.sample(range(d), d):
            lo, hi = box[i]
            xs = {lo, hi}
            for r in rows:
                if r[i + 1]:
                    xs.add(-(r[0] + sum(r[j + 1] * x[j] for j in range(d) if j != i)) / r[i + 1])
            xs = sorted(v for v in xs if lo <= v <= hi)
            if len(xs) < 2:
                break
            k = rng.randrange(len(xs) - 1)
            x[i] = xs[k] + (xs[k + 1] - xs[k]) * F(rng.randint(300, 700), 1000)
        x = tuple(x)
        if not any(ev(r, x) == 0 for r in rows):
            out.append(x)
    return out


def scaled(m, k):
    def sc(r):
        return (r[0], r[1], r[2] / k, r[3] / k)
    return m.map(lambda p: MP(3, [sc(r) for r in p.rows], [sc(r) for r in p.eqs]))


def gen_lv(rng):
    """A large value estimate: a maximum of bounds, one polytope, or pieces that depend on tau."""
    k = rng.choice(["max", "max", "max", "max", "poly", "split"])
    d = {"k": k, "ref": gen_ref(rng), "b": gen_bounds(rng)}
    if rng.random() < 0.4:      # names need not tell estimates apart
        d["name"] = "Huxley large value estimate, in the form given by Jutila and others"
    if k == "split":
        d["cut"] = fr(F(rng.randint(1, 12), rng.choice([1, 2, 3])))
        d["b2"] = gen_bounds(rng)
    return d


def build_lv(d):
    """(region, model) of a specification."""
    bs = [[un(v) for v in b] for b in d["b"]]
    if d["k"] == "max":
        return LV.convert_bounds([list(b) for b in bs]).region, bounds_model(bs)
    if d["k"] == "poly":
        rows = [list(r) for r in BOX] + [list(b) + [F(-1)] for b in bs]
        return RG.Region.from_polytope(PT.Polytope(rows)), RM("P", mp=MP(3, rows))
    cut = un(d["cut"])
    lo, hi = [list(r) for r in BOX] + [[cut, 0, -1, 0]], [list(r) for r in BOX] + [[-cut, 0, 1, 0]]
    b2 = [[un(v) for v in b] for b in d["b2"]]
    r1 = RG.Region.from_union_of_halfplanes([b + [F(-1)] for b in bs], lo)
    r2 = RG.Region.from_union_of_halfplanes([b + [F(-1)] for b in b2], hi)
    return RG.Region.disjoint_union(r1.child + r2.child), RM("D", [bounds_model(bs, lo), bounds_model(b2, hi)])


def gen_power(rng):
    return fr(rng.choice([F(2), F(2), F(3), F(4), F(5), F(1), F(3, 2), F(1, 2)]))


def lv_hyp(d, typ, name):
    r, m = build_lv(d)
    h = HY.Hypothesis(d.get("name", name), typ, LV.Large_Value_Estimate(r), "See", build_ref(d["ref"]))
    return h, m


class LVBase(Workload):
    real = ["large_values.py", "zeta_large_values.py", "zero_density_estimate.py", "region.py", "helpers/region_helper.py",
            "polytope.py", "hypotheses.py", "reference.py", "bound_beta.py", "functions.py", "pycddlib"]
    stubs = ["clock", "console", "matplotlib"]

    def ask(self, e, fn, fault, lab):
        r = e.call(fn, fault, lab)
        if r.kind == "fault":
            e.probe("faulted_then_retried")
            r = e.must(fn, lab + "-retry")
        elif not r.ok:
            r = e.must(fn, lab + "-again")
            e.fail("unstable", "%s raised %s once and then returned" % (lab, type(r.exc).__name__))
        return r.value

    def agree(self, e, lib, m, pts, lab, n=""):
        for x in pts:
            g, w = bool(lib.contains(list(x))), m.inside(x)
            if g != w:
                e.fail("membership", "%s: (sigma, tau, rho) = %s is %s the region, by definition %s" % (
                    lab, fmt(x), "in" if g else "not in", "it is" if w else "it is not"))


class LVRegion(LVBase):
    pid = "L01"
    cases = {"quick": 1600, "thorough": 24000}
    rule = ("seeded histories of additions and region computations over stores of up to 6 large value estimates, zeta large value "
            "estimates and power transforms, on boxes and slanted domains, with solver failures, interruptions, console failures and "
            "clock jumps followed by a retry; non-trivial when at least two estimates cut the domain; distinct by event log")

    def generate(self, rng, tier):
        n = rng.randint(1, 5)
        hyps = []
        for _ in range(n):
            r = rng.random()
            if r < 0.55 or not hyps:
                hyps.append({"t": "lv", "d": gen_lv(rng)})
            elif r < 0.65:
                hyps.append({"t": "lv", "d": dict(rng.choice([h["d"] for h in hyps if "d" in h] or [gen_lv(rng)]))})
            elif r < 0.82:
                hyps.append({"t": "tf", "p": gen_power(rng)})
            else:
                hyps.append({"t": "zlv", "d": gen_lv(rng)})
        ops = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.2:
                ops.append({"op": "add", "h": [rng.randrange(n)], "fault": None})
                continue
            s = sorted(rng.sample([F(1, 2), F(3, 5), F(2, 3), F(7, 10), F(3, 4), F(4, 5), F(7, 8), F(9, 10), F(1)], 2))
            t0 = rng.choice([F(0), F(1), F(2), F(2), F(3), F(5, 2), F(4, 3)])
            t1 = t0 + rng.choice([F(1, 2), F(1), F(2), F(3)])
            if rng.random() < 0.1:
                t1 = BIGV
            op = {"op": "region", "s": [fr(v) for v in s], "t": [fr(t0), fr(t1)],
                  "rho": fr(rng.choice([BIGV, BIGV, BIGV, F(1), F(3)])), "zeta": rng.random() < 0.4, "debug": rng.random() < 0.3,
                  "slant": [fr(F(rng.randint(-6, 6))), fr(F(rng.randint(-4, 4)))] if rng.random() < 0.25 else None,
                  "two": rng.random() < 0.15, "r": rng.getrandbits(32), "fault": None}
            if rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["LinProg", "Polyhedron"], 40), gen_interrupt(rng, 6000)])
                if op["debug"] and rng.random() < 0.5:
                    op["fault"] = gen_console(rng, 6)
            ops.append(op)
        return {"hyps": hyps, "init": rng.sample(range(n), rng.randint(max(0, n - 2), n)), "ops": ops,
                "clock": rng.choice([None, None, [0.001], [-3600.0, 5.0], [86400.0, -86400.0, 0.0]])}

    def run(self, case, e):
        env.W.clock_steps = case.get("clock")
        H, M = [], []
        for i, s in enumerate(case["hyps"]):
            if s["t"] == "tf":
                H.append(LV.raise_to_power_hypothesis(un(s["p"])))
                M.append(un(s["p"]))
            else:
                h, m = lv_hyp(s["d"], {"lv": "Large value estimate", "zlv": "Zeta large value estimate"}[s["t"]], "h%d" % i)
                H.append(h)
                M.append(m)
        idx = {id(h): i for i, h in enumerate(H)}
        ini = [i for i in case["init"] if i < len(H)]
        S = HY.Hypothesis_Set([H[i] for i in ini])
        have = set(ini)
        kind = [s["t"] for s in case["hyps"]]
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            if op["op"] == "add":
                hs = [i % len(H) for i in op["h"]]
                S.add_hypotheses([H[i] for i in hs])
                have |= set(hs)
                continue
            rng = random.Random(op["r"])
            s, t, R = [un(v) for v in op["s"]], [un(v) for v in op["t"]], un(op["rho"])
            rows = [[-s[0], 1, 0, 0], [s[1], -1, 0, 0], [-t[0], 0, 1, 0], [t[1], 0, -1, 0], [0, 0, 0, 1], [R, 0, 0, -1]]
            if op["slant"]:
                a, b = un(op["slant"][0]), un(op["slant"][1])
                rows.append([-a * (s[0] + s[1]) / 2 - b * (t[0] + min(t[1], t[0] + 4)) / 2, a, b, 0])
            if op["two"]:
                mid = (s[0] + s[1]) / 2
                parts = [rows + [[mid, -1, 0, 0]], rows + [[-mid, 1, 0, 0]]]
                dom = RG.Region.disjoint_union([RG.Region.from_polytope(PT.Polytope([list(x) for x in p])) for p in parts])
            else:
                dom = RG.Region.from_polytope(PT.Polytope([list(x) for x in rows]))
            md = RM("P", mp=MP(3, rows))
            lvs = [i for i in sorted(have) if kind[i] == "lv"]
            tfs = [i for i in sorted(have) if kind[i] == "tf"]
            zs = [i for i in sorted(have) if kind[i] == "zlv"] if op["zeta"] else []
            facts = [(("h", i), M[i]) for i in lvs + zs] + [(("t", i, j), scaled(M[i], M[j])) for i in lvs for j in tfs]
            if len(facts) > 14:
                e.probe("too_large")
                continue
            before = (sorted(h.name for h in S), [str(h.data.region) for h in H if not isinstance(h.data, LV.Large_Value_Estimate_Transform)], str(dom))
            h = self.ask(e, lambda: ZD.compute_large_value_region(S, dom, zeta=op["zeta"], debug=op["debug"]), op["fault"], lab)
            after = (sorted(h_.name for h_ in S), [str(h_.data.region) for h_ in H if not isinstance(h_.data, LV.Large_Value_Estimate_Transform)], str(dom))
            if before != after:
                e.fail("inputs-changed", "%s changed the store, an estimate in it, or the domain" % lab)
            typ = "Zeta large value estimate" if op["zeta"] else "Large value estimate"
            if not isinstance(h, HY.Hypothesis) or h.hypothesis_type != typ:
                e.fail("type", "%s: a hypothesis of type %r was expected, got %r" % (lab, typ, getattr(h, "hypothesis_type", type(h))))
            reg = h.data.region
            want = RM("I", [md] + [m for _, m in facts])
            box = [(s[0], s[1]), (t[0], min(t[1], t[0] + 6)), (F(0), min(R, F(8)))]
            bigbox = [(s[0], s[1]), (t[0], t[1]), (F(0), R)]
            rr = rows3(want)
            pts = lv_points(rng, rr, box, 40) + lv_points(rng, rr, bigbox, 10)
            self.agree(e, reg, want, pts, lab)
            ps = polys_of(reg)
            ms = [to_model(p) for p in ps]
            more = []
            if len(ms) <= 25:
                mr = sorted({r for p in ms for r in p.rows + p.eqs if any(r[1:])} | set(rr))
                more = lv_points(rng, mr, box, 25)
                self.agree(e, reg, want, more, lab)
            if len(ms) <= 12 and not op["slant"]:
                for i, a in enumerate(ms):
                    for b in ms[:i]:
                        if not a.meet(b).interior_empty():
                            e.fail("overlap", "%s: two pieces of the computed region overlap" % lab)
            # provenance
            deps = list(h.dependencies)
            known = []
            for q in deps:
                if id(q) in idx:
                    i = idx[id(q)]
                    if i not in lvs + zs:
                        e.fail("foreign-dependency", "%s: the region depends on %s, which is not available to it" % (lab, q.name))
                    known.append(M[i])
                    continue
                src = [idx.get(id(x)) for x in q.dependencies]
                if len(src) != 1 or src[0] not in lvs or not isinstance(q.data, LV.Large_Value_Estimate):
                    e.fail("foreign-dependency", "%s: the region depends on %s, which is no available estimate or transform of one" % (lab, q.name))
                cand = [scaled(M[src[0]], M[j]) for j in tfs]
                bx = [(F(1, 2), F(1)), (F(0), F(12)), (F(0), F(12))]
                chk = lv_points(rng, sorted({r for c in cand for r in rows3(c)}), bx, 12)
                ok = [c for c in cand if all(bool(q.data.region.contains(list(x))) == c.inside(x) for x in chk)]
                if not ok:
                    e.fail("foreign-dependency", "%s: dependency %s is no transform of its source" % (lab, q.name))
                known.append(q.data.region)
            for x in pts + more:
                if md.inside(x) and not want.inside(x) and all(
                        k.inside(x) if isinstance(k, RM) else bool(k.contains(list(x))) for k in known):
                    e.fail("deps-too-few", "%s: the %d listed dependencies allow %s, which the result excludes" % (lab, len(deps), fmt(x)))
            cutting = sum(1 for _, m in facts if any(md.inside(x) and not m.inside(x) for x in pts))
            if cutting >= 2:
                e.probe("nontrivial")
            if not ms:
                e.probe("empty_region")
            if not facts:
                e.probe("no_estimates")
            e.probe("pieces", len(ms))
            e.log("result", len(facts), len(ms), sorted(q.name for q in deps), [int(want.inside(x)) for x in pts])
            e.cover(op["zeta"], len(facts), min(9, len(ms)), min(4, cutting), min(4, len(deps)), bool(tfs))


class Conversions(LVBase):
    pid = "L02"
    cases = {"quick": 2500, "thorough": 40000}
    rule = ("seeded stores of large value estimates, power transforms, zeta large value estimates, bounds on beta and bounds on mu, "
            "each conversion called in a history with additions, interruptions, solver failures and retries; non-trivial when a "
            "conversion excludes part of the space; distinct by event log")

    def generate(self, rng, tier):
        hyps = []
        for _ in range(rng.randint(1, 5)):
            t = rng.choice(["lv", "lv", "tf", "zlv", "beta", "beta", "beta", "mu"])
            s = {"t": t}
            if t in ("lv", "zlv"):
                s["d"] = gen_lv(rng)
            elif t == "tf":
                s["p"] = gen_power(rng)
            elif t == "beta":
                g = [F(0), F(1, 12), F(1, 6), F(1, 5), F(1, 4), F(1, 3), F(2, 5), F(49, 144), F(1, 2)] + [F(2, 3), F(1)] * (rng.random() < 0.4)
                a, b = sorted(rng.sample(g, 2))
                if rng.random() < 0.5:
                    a, b = F(0), F(1, 2)
                s.update(m=fr(F(rng.randint(-12, 12), rng.choice([6, 12, 13]))), c=fr(F(rng.randint(0, 8), rng.choice([6, 12, 13]))),
                         a=fr(a), b=fr(b), inc=[True, rng.random() < 0.7], ref=gen_ref(rng))
            else:
                s.update(s=fr(rng.choice([F(0), F(1, 2), F(1, 2), F(3, 5), F(3, 4), F(9, 10), F(1), F(rng.randint(1, 29), 30)])),
                         m=fr(F(rng.randint(0, 10), rng.choice([6, 12, 30, 42]))), ref=gen_ref(rng))
            hyps.append(s)
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = rng.choice(["convert", "power", "lv", "beta", "beta", "mu", "all", "trivial", "lit"])
            op = {"op": o, "r": rng.getrandbits(32), "i": rng.randrange(8), "b": gen_bounds(rng), "p": gen_power(rng), "fault": None,
                  "ref": gen_ref(rng, ["lit"])}
            if rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["LinProg", "Polyhedron"], 6), gen_interrupt(rng, 1500)])
            ops.append(op)
        n = len(hyps)
        return {"hyps": hyps, "init": rng.sample(range(n), rng.randint(max(1, n - 1), n)), "ops": ops}

    def run(self, case, e):
        H, M = [], []
        for i, s in enumerate(case["hyps"]):
            if s["t"] in ("lv", "zlv"):
                h, m = lv_hyp(s["d"], {"lv": "Large value estimate", "zlv": "Zeta large value estimate"}[s["t"]], "h%d" % i)
            elif s["t"] == "tf":
                h, m = LV.raise_to_power_hypothesis(un(s["p"])), un(s["p"])
            elif s["t"] == "beta":
                m = (un(s["m"]), un(s["c"]), un(s["a"]), un(s["b"]))
                h = HY.Hypothesis("beta%d" % i, "Upper bound on beta", BB.Bound_beta(FN.Affine(m[0], m[1], FN.Interval(m[2], m[3], *s["inc"]))),
                                  "See", build_ref(s["ref"]))
            else:
                m = (un(s["s"]), un(s["m"]))
                h = HY.Hypothesis("mu%d" % i, "Upper bound on mu", BM.Bound_mu(*m), "See", build_ref(s["ref"]))
            H.append(h)
            M.append(m)
        ini = [i for i in case["init"] if i < len(H)]
        S = HY.Hypothesis_Set([H[i] for i in ini])
        kind = [s["t"] for s in case["hyps"]]
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            before = (sorted(h.name for h in S), [str(h.data) for h in H])
            getattr(self, "op_" + op["op"])(e, op, case, S, H, M, kind, ini, random.Random(op["r"]), lab)
            e.log(sorted(h.name for h in S), op["i"], op["p"])
            if (sorted(h.name for h in S), [str(h.data) for h in H]) != before:
                e.fail("inputs-changed", "%s changed the store or an estimate in it" % lab)

    def pts(self, rng, m, n=24, tlo=F(0)):
        rr = rows3(m)
        out = []
        for thi, rhi in ((F(8), F(8)), (F(60), F(60)), (BIGV, BIGV), (BIGV, F(3))):
            out += lv_points(rng, rr, [(F(1, 2), F(1)), (tlo, thi), (F(0), rhi)], n // 4)
        return out

    def good(self, e, lab, h, typ, deps=None):
        if not isinstance(h, HY.Hypothesis) or h.hypothesis_type != typ:
            e.fail("type", "%s: expected a hypothesis of type %r, got %r" % (lab, typ, getattr(h, "hypothesis_type", type(h).__name__)))
        if deps is not None and {id(x) for x in h.dependencies} != {id(x) for x in deps}:
            e.fail("dependencies", "%s: depends on %s instead of %s" % (lab, sorted(x.name for x in h.dependencies), sorted(x.name for x in deps)))

    def overlap(self, e, reg, lab):
        ms = [to_model(p) for p in polys_of(reg)]
        if len(ms) > 8:
            return
        for i, a in enumerate(ms):
            for b in ms[:i]:
                if not a.meet(b).interior_empty():
                    e.fail("overlap", "%s: two pieces of the region overlap" % lab)

    def op_convert(self, e, op, case, S, H, M, kind, ini, rng, lab):
        bs = [[un(v) for v in b] for b in op["b"]]
        arg = [list(b) for b in bs]
        d = self.ask(e, lambda: LV.convert_bounds(arg), op["fault"], lab)
        if arg != bs:
            e.fail("inputs-changed", "%s changed the given coefficients" % lab)
        m = bounds_model(bs)
        self.agree(e, d.region, m, self.pts(rng, m, 32), lab)
        self.overlap(e, d.region, lab)
        e.cover("convert", len(bs))
        e.probe("nontrivial")

    def op_lit(self, e, op, case, S, H, M, kind, ini, rng, lab):
        bs = [[un(v) for v in b] for b in op["b"]]
        ref = build_ref(op["ref"])
        zeta = rng.random() < 0.5
        f = ZL.literature_bound_ZLV_Max if zeta else LV.literature_bound_LV_max
        h = self.ask(e, lambda: f([list(b) for b in bs], ref, " par"), op["fault"], lab)
        self.good(e, lab, h, "Zeta large value estimate" if zeta else "Large value estimate", [])
        if h.reference is not ref:
            e.fail("reference", "%s: the estimate is not attributed to the given reference" % lab)
        y = str(ref_year(op["ref"]))
        if "[%s, %s]" % (ref.author(), y) not in h.proof:
            e.fail("citation", "%s: the proof %r does not cite [%s, %s]" % (lab, h.proof, ref.author(), y))
        m = bounds_model(bs)
        self.agree(e, h.data.region, m, self.pts(rng, m, 16), lab)
        e.cover("lit", zeta, len(bs))

    def op_trivial(self, e, op, case, S, H, M, kind, ini, rng, lab):
        h = self.ask(e, lambda: ZL.get_trivial_zlv(), op["fault"], lab)
        self.good(e, lab, h, "Zeta large value estimate", [])
        m = RM("P", mp=MP(3, [(F(-1, 2), 1, 0, 0), (1, -1, 0, 0), (-2, 0, 1, 0), (BIGV, 0, -1, 0), (0, 0, 0, 1), (0, 0, 1, -1)]))
        self.agree(e, h.data.region, m, self.pts(rng, m, 16, F(2)), lab)
        e.cover("trivial")

    def op_power(self, e, op, case, S, H, M, kind, ini, rng, lab):
        c = [i for i in range(len(H)) if kind[i] == "lv"]
        if not c:
            return
        i, k = c[op["i"] % len(c)], un(op["p"])
        tf = LV.raise_to_power_hypothesis(k)
        h = self.ask(e, lambda: tf.data.transform(H[i]), op["fault"], lab)
        self.good(e, lab, h, "Large value estimate", [H[i]])
        m = scaled(M[i], k)
        self.agree(e, h.data.region, m, self.pts(rng, m), lab)
        e.cover("power", str(k), case["hyps"][i]["d"]["k"])
        e.probe("nontrivial")

    def conj(self, hs):
        return lambda x: all(bool(h.data.region.contains(list(x))) for h in hs)

    def lv_facts(self, M, kind, ini, e=None):
        lvs = [i for i in ini if kind[i] == "lv"]
        tfs = [i for i in ini if kind[i] == "tf"]
        tau2 = RM("P", mp=MP(3, [(F(-2), 0, 1, 0)]))
        out = [(i, RM("I", [tau2, M[i]])) for i in lvs]
        return out + [(i, RM("I", [tau2, scaled(M[i], M[j])])) for i in lvs for j in tfs]

    def match(self, e, lab, hs, facts, H, rng, direct):
        """Every converted estimate is one of the expected ones and every expected one is there."""
        left = list(facts)
        pts = self.pts(rng, RM("U", [f[1] for f in facts]), 48) if facts else []
        for h in hs:
            self.good(e, lab, h, "Zeta large value estimate")
            hit = None
            for f in left:
                if self.follows(h, H, f[0], direct) and all(bool(h.data.region.contains(list(x))) == f[1].inside(x) for x in pts):
                    hit = f
                    break
            if hit is None:
                e.fail("wrong-conversion", "%s: %s (%s) with dependencies %s is none of the expected conversions" % (
                    lab, h.name, h.proof[:80], sorted(x.name for x in h.dependencies)))
            left.remove(hit)
        if left:
            e.fail("missing-conversion", "%s: no conversion for %s" % (lab, [H[f[0]].name for f in left]))

    def follows(self, h, H, i, direct):
        """h depends on H[i], directly or through one estimate derived from it."""
        ds = list(h.dependencies)
        return any(d is H[i] for d in ds) or any(any(x is H[i] for x in d.dependencies) for d in ds)

    def op_lv(self, e, op, case, S, H, M, kind, ini, rng, lab):
        facts = self.lv_facts(M, kind, ini)
        hs = self.ask(e, lambda: list(ZL.lv_to_zlv(S)), op["fault"], lab)
        self.match(e, lab, hs, facts, H, rng, False)
        e.cover("lv", len(facts))
        if facts:
            e.probe("nontrivial")

    def beta_in(self, bs, x):
        """By the bounds on beta, is (sigma, tau, rho) with rho > 0, 2 < tau < limit feasible?"""
        s, t, r = x
        if r > t:
            return False
        for m, c, a, b in bs:
            if a < 1 / t < b and s > m + c * t:
                return False
        return True

    def beta_rows(self, bs):
        rows = [(F(0), F(0), F(1), F(-1))]
        for m, c, a, b in bs:
            rows.append((-m, F(1), -c, F(0)))
            for v in (a, b):
                if v > 0:
                    rows.append((-1 / v, F(0), F(1), F(0)))
        return rows

    def op_beta(self, e, op, case, S, H, M, kind, ini, rng, lab):
        bs = [M[i] for i in ini if kind[i] == "beta"]
        hs = self.ask(e, lambda: list(ZL.beta_to_zlv(S)), op["fault"], lab)
        pts = []
        for thi in (F(5), F(13), F(60), BIGV):
            pts += lv_points(rng, self.beta_rows(bs), [(F(1, 2), F(1)), (F(2), thi), (F(0), thi)], 8)
        inall = self.conj(hs)
        for x in pts:
            g, w = inall(x) if hs else True, (self.beta_in(bs, x) if bs else True)
            if g != w:
                e.fail("membership", "%s: %s is %s by the zeta large value estimates, but %s by the bounds on beta" % (
                    lab, fmt(x), "allowed" if g else "excluded", "allowed" if w else "excluded"))
            z = (x[0], x[1], F(0))
            if hs and not inall(z):
                e.fail("zero-excluded", "%s: rho = 0 at %s is excluded" % (lab, fmt(z)))
        mem = {id(H[i]): M[i] for i in ini if kind[i] == "beta"}
        for h in hs:
            self.good(e, lab, h, "Zeta large value estimate")
            src = [mem[id(d)] for d in h.dependencies if id(d) in mem] + \
                  [mem[id(q)] for d in h.dependencies for q in d.dependencies if id(q) in mem]
            if not src:
                e.fail("dependencies", "%s: an estimate depends on %s, none of them an available bound on beta" % (lab, sorted(d.name for d in h.dependencies)))
            for x in [(F(rng.randint(50, 100), 100), F(rng.randint(1, 199), 100), v) for v in (F(0), F(0), F(1, 3))]:
                if h.data.region.contains(list(x)):
                    e.fail("range", "%s: %s allows %s, with tau below 2" % (lab, h.name, fmt(x)))
            for x in pts:
                if not h.data.region.contains(list(x)) and self.beta_in(src, x):
                    e.fail("unsound", "%s: %s excludes %s, which its dependencies %s allow" % (lab, h.name, fmt(x), sorted(d.name for d in h.dependencies)))
        e.cover("beta", len(bs), min(6, len(hs)))
        if bs and any(not self.beta_in(bs, x) and x[2] <= x[1] for x in pts):
            e.probe("nontrivial")

    def op_mu(self, e, op, case, S, H, M, kind, ini, rng, lab):
        mus = [i for i in ini if kind[i] == "mu"]
        hs = self.ask(e, lambda: list(ZL.mu_to_zlv(S)), op["fault"], lab)
        if len(hs) != len(mus):
            e.fail("missing-conversion", "%s: %d estimates from %d bounds on mu" % (lab, len(hs), len(mus)))
        for h in hs:
            self.good(e, lab, h, "Zeta large value estimate")
            src = [i for i in mus if any(d is H[i] for d in h.dependencies)]
            if len(src) != 1:
                e.fail("dependencies", "%s: depends on %s" % (lab, sorted(d.name for d in h.dependencies)))
            s0, m0 = M[src[0]]
            rows = [(-s0, F(1), -m0, F(0)), (F(0), F(0), F(1), F(-1))]
            for thi in (F(6), F(40), BIGV):
                for x in lv_points(rng, rows, [(F(1, 2), F(1)), (F(2), thi), (F(0), thi)], 8):
                    g, w = bool(h.data.region.contains(list(x))), x[2] <= x[1] and x[0] < s0 + m0 * x[1]
                    if g != w:
                        e.fail("membership", "%s: mu(%s) <= %s: %s is %s" % (lab, s0, m0, fmt(x), "allowed" if g else "excluded"))
                    if not h.data.region.contains([x[0], x[1], F(0)]):
                        e.fail("zero-excluded", "%s: rho = 0 at %s is excluded" % (lab, fmt(x)))
        e.cover("mu", len(mus))
        if mus:
            e.probe("nontrivial")

    def op_all(self, e, op, case, S, H, M, kind, ini, rng, lab):
        hs = self.ask(e, lambda: list(ZL.compute_large_value_estimate(S)), op["fault"], lab)
        bs = [M[i] for i in ini if kind[i] == "beta"]
        facts = [m for _, m in self.lv_facts(M, kind, ini)] + [M[i] for i in ini if kind[i] == "zlv"]
        for i in ini:
            if kind[i] == "zlv" and not any(h is H[i] for h in hs):
                e.fail("missing-conversion", "%s: the zeta large value estimate %s is not in the result" % (lab, H[i].name))
        rows = sorted({r for m in facts for r in rows3(m)} | set(self.beta_rows(bs)))
        for thi in (F(6), F(30), BIGV):
            for x in lv_points(rng, rows, [(F(1, 2), F(1)), (F(2), thi), (F(0), thi)], 10):
                g = self.conj(hs)(x)
                w = all(m.inside(x) for m in facts) and (not bs or self.beta_in(bs, x))
                if g != w:
                    e.fail("membership", "%s: %s is %s by the computed estimates, but %s by the store" % (
                        lab, fmt(x), "allowed" if g else "excluded", "allowed" if w else "excluded"))
        e.cover("all", len(hs), len(facts), len(bs))
        if facts or bs:
            e.probe("nontrivial")

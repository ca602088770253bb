"""D01 zero density estimates from large values, Z01 best estimates, F01 rational functions."""
import random

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_solver, gen_console, gen_schedule, gen_ref, build_ref, ref_year, HY, fr, un
import env
import sympy
from models_poly import MP
from work_poly import fmt
from work_lv import LVBase, gen_lv, build_lv, gen_power, lv_hyp, gen_bounds
import polytope as PT
import functions as FN
import large_values as LV
import zeta_large_values as ZL
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE
import bound_beta as BB
import bound_mu as BM
import literature as LT

RFN = FN.RationalFunction


def num(v):
    """A number of the library as an exact rational, or as a float."""
    if isinstance(v, F):
        return v
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return F(v)
    if isinstance(v, float):
        return v
    if getattr(v, "is_Rational", False):
        return F(int(v.p), int(v.q))
    try:
        c = complex(v)
    except Exception:
        return None
    return c.real if abs(c.imag) < 1e-12 * (1 + abs(c.real)) else None


def same(v, w, exact=True):
    if v is None or w is None:
        return False
    if isinstance(v, F) and isinstance(w, F):
        return v == w or (not exact and abs(v - w) <= F(1, 10 ** 9) * (1 + abs(w)))
    return abs(float(v) - float(w)) <= 1e-8 * (1 + abs(float(w)))


def fl(v):
    v = num(v)
    return None if v is None else float(v)


def check_pieces(e, lab, ivs, x0, x1, cover=True):
    """Half-open pieces in order, without gaps or overlaps, covering [x0, x1). Returns rational bounds of each."""
    out = []
    ends = sorted(((fl(i.x0), fl(i.x1)) for i in ivs), key=lambda t: t)
    if any(a is None or b is None for a, b in ends):
        e.fail("pieces", "%s: an interval has a limit that is no real number: %s" % (lab, [str(i) for i in ivs][:6]))
    for a, b in ends:
        if b < a - 1e-12:
            e.fail("pieces", "%s: an interval runs backwards: %s" % (lab, [str(i) for i in ivs][:6]))
    pos = float(x0)
    for a, b in ends:
        if abs(a - pos) > 1e-10:
            e.fail("pieces", "%s: the pieces do not cover [%s, %s) once: %s" % (lab, x0, x1, [str(i) for i in ivs][:8]))
        pos = b
    if ends and abs(pos - float(x1)) > 1e-10 or not ends:
        e.fail("pieces", "%s: the pieces do not cover [%s, %s): %s" % (lab, x0, x1, [str(i) for i in ivs][:8]))
    return ends


def sample_sigma(rng, ends, extra, x0, x1, n):
    """Rationals in the open pieces, near their ends too, away from every breakpoint."""
    br = sorted({a for a, b in ends} | {b for a, b in ends} | {float(v) for v in extra} | {float(x0), float(x1)})
    out = []
    gaps = [(a, b) for a, b in zip(br, br[1:]) if b - a > 1e-7]
    if not gaps:
        return []
    for k in range(n):
        a, b = gaps[k % len(gaps)] if k < len(gaps) else rng.choice(gaps)
        u = rng.choice([0.02, 0.5, 0.98, rng.uniform(0.05, 0.95)])
        x = F(a + (b - a) * u).limit_denominator(10 ** 7)
        if x0 < x < x1 and a < float(x) < b:
            out.append(x)
    return out


def slice_sup(mp, s):
    """Largest rho/tau of a polytope in (sigma, tau, rho) at sigma = s, or None."""
    def sub(r):
        return (r[0] + r[1] * s, r[2], r[3])
    v = MP(2, [sub(r) for r in mp.rows], [sub(r) for r in mp.eqs]).verts()
    return max(x[1] / x[0] for x in v) if v else None


class Facts:
    """rho*(tau) at one sigma: a minimum over facts of functions that are piecewise affine in tau."""

    def __init__(self):
        self.f = []          # (breaks, fn(tau) -> list of (c, t) affine functions, maximum of which bounds rho)

    def add_max(self, bs, s, k=F(1), cut=None, b2=None):
        """rho <= max of bounds; with power k; with other bounds right of a cut."""
        l1 = [(k * (b[0] + b[1] * s), b[2]) for b in bs]
        if cut is None:
            self.f.append(([], lambda t: l1, [l1]))
        else:
            l2 = [(k * (b[0] + b[1] * s), b[2]) for b in b2]
            self.f.append(([k * cut], lambda t: l1 if t < k * cut else l2, [l1, l2]))

    def add_zero(self, fn, brk):
        """rho <= 0 where fn(tau) holds, rho <= tau elsewhere."""
        z, t1 = [(F(0), F(0))], [(F(0), F(1))]
        self.f.append((brk, lambda t: z if fn(t) else t1, [z, t1]))

    def sup(self, lo, hi):
        """sup of rho/tau over lo <= tau <= hi with rho > 0 feasible; 0 or less when there is none. Uses only open pieces."""
        lines = {(F(0), F(0))} | {l for f in self.f for ls in f[2] for l in ls}
        xs = {lo, hi} | {b for f in self.f for b in f[0]}
        lines = sorted(lines)
        for i, a in enumerate(lines):
            for b in lines[:i]:
                if a[1] != b[1]:
                    xs.add((b[0] - a[0]) / (a[1] - b[1]))
        xs = sorted(x for x in xs if lo <= x <= hi)
        best = F(0)
        for a, b in zip(xs, xs[1:]):
            m = (a + b) / 2
            act = None
            for f in self.f:
                g = max(f[1](m), key=lambda l: l[0] + l[1] * m)
                if act is None or g[0] + g[1] * m < act[0] + act[1] * m:
                    act = g
            if act is None:
                return None                      # nothing is known: the default limit applies
            if act[0] + act[1] * m <= 0:
                continue
            for t in (a, b):
                if t > 0:
                    best = max(best, (act[0] + act[1] * t) / t)
        return best


SIG = [F(1, 2), F(3, 5), F(2, 3), F(7, 10), F(3, 4), F(4, 5), F(5, 6), F(7, 8), F(9, 10), F(1)]


def gen_sup(rng, most):
    """Polytopes in (sigma, tau, rho). Often they share their ranges, and their tops meet in one corner: shared vertices and edges."""
    ps = []
    shared = rng.random() < 0.6
    for _ in range(rng.randint(2 if shared else 1, most)):
        if not ps or not shared:
            a, b = sorted(rng.sample(SIG, 2))
            t0 = rng.choice([F(1), F(2), F(3, 2), F(1, 2)])
            t1 = t0 + rng.choice([F(1), F(2), F(1, 2)])
            top = rng.choice([F(1), F(2), F(5), F(1, 2)])
            cs, ct = rng.choice([a, a, b]), rng.choice([t0, t0, t1])
        rows = [[-a, 1, 0, 0], [b, -1, 0, 0], [-t0, 0, 1, 0], [t1, 0, -1, 0], [0, 0, 0, 1]]
        if shared:      # rho <= top + m (sigma - cs) + n (tau - ct)
            for _ in range(rng.choice([1, 1, 1, 2])):
                m, n = rng.choice([0, 0, 0, -1, -1, 1, 2, -2, 4]), rng.choice([0, 0, 0, 0, 1, -1, F(1, 2)])
                rows.append([top - m * cs - n * ct, m, n, -1])
        else:
            rows.append([top, 0, 0, -1])
            for _ in range(rng.choice([0, 1, 1, 2, 2])):
                rows.append([F(rng.randint(-2, 9)), F(rng.randint(-9, 3)), F(rng.randint(-1, 2)), F(-rng.choice([1, 1, 2, 0]))])
        if rng.random() < 0.1:
            rows.append([0, 0, 0, -1])
        ps.append([[fr(F(v)) for v in r] for r in rows])
    return ps


class ZeroDensity(LVBase):
    pid = "D01"
    cases = {"quick": 900, "thorough": 16000}
    stubs = ["clock", "console", "matplotlib"]
    real = LVBase.real + ["sympy"]
    rule = ("seeded suprema of rho/tau over unions of random polytopes, and zero density estimates by both corollaries from stores of "
            "large value estimates, powers, zeta estimates, bounds on beta and mu, with solver failures (linear programs, polyhedra, "
            "symbolic solver) and interruptions followed by a retry; non-trivial when the supremum is positive somewhere; distinct "
            "by event log")

    def generate(self, rng, tier):
        k = rng.choice(["sup", "sup", "zd1", "zd1", "zd2"])
        s = sorted(rng.sample(SIG, 2))
        case = {"k": k, "s": [fr(v) for v in s], "r": rng.getrandbits(32), "fault": None, "again": rng.random() < 0.2,
                "inc": [rng.random() < 0.8, rng.random() < 0.4]}
        if rng.random() < 0.4:
            case["fault"] = rng.choice([gen_solver(rng, ["LinProg", "Polyhedron", "solve"], 60), gen_interrupt(rng, 15000)])
        if case["again"] and rng.random() < 0.7:
            # the second time: another range of sigma, and more polytopes or estimates than the first time
            case["s2"] = [fr(v) for v in (s if rng.random() < 0.3 else sorted(rng.sample(SIG, 2)))]
            case["late"] = rng.randint(0, 2)
        if k == "sup":
            ps = gen_sup(rng, 4)
            if rng.random() < 0.2:
                ps.append([list(r) for r in ps[0]])
            case["ps"] = ps
            return case
        hyps = []
        for _ in range(rng.randint(1, 4)):
            t = rng.choice(["lv", "lv", "lv", "tf", "zlv", "beta", "mu"]) if hyps else "lv"
            h = {"t": t}
            if t in ("lv", "zlv"):
                h["d"] = gen_lv(rng)
                if h["d"]["k"] == "split" and rng.random() < 0.5:
                    h["d"]["k"] = "max"
                h["d"]["b"] = h["d"]["b"][:2]
            elif t == "tf":
                h["p"] = gen_power(rng)
            elif t == "beta":
                a, b = sorted(rng.sample([F(0), F(1, 6), F(1, 4), F(1, 3), F(2, 5), F(1, 2)], 2))
                if rng.random() < 0.6:
                    a, b = F(0), F(1, 2)
                h.update(m=fr(F(rng.randint(-2, 12), rng.choice([6, 12, 13]))), c=fr(F(rng.randint(0, 6), rng.choice([6, 12, 13]))),
                         a=fr(a), b=fr(b))
            else:
                h.update(s=fr(rng.choice([F(1, 2), F(1, 2), F(3, 5), F(3, 4)])), m=fr(F(rng.randint(0, 6), rng.choice([6, 12, 30, 42]))))
            hyps.append(h)
        case["hyps"] = hyps
        case["l2"] = rng.random() < 0.7
        case["clock"] = rng.choice([None, [-3600.0, 5.0]])
        if k == "zd1":
            case["tau0"] = fr(rng.choice([F(2), F(3), F(3), F(4), F(5, 2), F(3, 2)]))
        else:
            m, c = rng.choice([(F(-1), F(2)), (F(3), F(-1)), (F(0), F(2)), (F(0), F(3)), (F(2), F(0)), (F(-2), F(4)), (F(0), F(3, 2))])
            if min(m * s[0] + c, m * s[1] + c) <= F(1, 4):
                m, c = F(0), F(3)
            case["tau0"] = [fr(m), fr(c)]
        return case

    def run(self, case, e):
        rng = random.Random(case["r"])
        env.W.clock_steps = case.get("clock")
        s0, s1 = [un(v) for v in case["s"]]
        itv = FN.Interval(s0, s1, *case["inc"])
        if case["k"] == "sup":
            return self.run_sup(case, e, rng, s0, s1, itv)
        return self.run_zd(case, e, rng, s0, s1, itv)

    def run_sup(self, case, e, rng, s0, s1, itv):
        rows = [[[un(v) for v in r] for r in p] for p in case["ps"]]
        ms = [MP(3, p) for p in rows]
        late = min(case.get("late", 0), len(rows) - 1)
        allm, allps = ms, None
        for rep in range(2 if case["again"] else 1):
            if rep and "s2" in case:
                s0, s1 = [un(v) for v in case["s2"]]
                itv = FN.Interval(s0, s1, *case["inc"])
                ps.extend(allps[len(ps):])
                ms = allm
            else:
                allps = [PT.Polytope([list(r) for r in p]) for p in rows]
                ps, ms = allps[:len(rows) - late], allm[:len(rows) - late]
            res = self.ask(e, lambda: ZD.compute_sup_rho_on_tau(ps, itv), case["fault"], "sup")
            ends = check_pieces(e, "sup", [r[1] for r in res], s0, s1)
            extra = {v[0] for m in ms for v in m.verts()}
            for x in sample_sigma(rng, ends, extra, s0, s1, 14):
                w = [slice_sup(m, x) for m in ms]
                w = [v for v in w if v is not None]
                hit = [r for r in res if r[1].contains(x)]
                if len(hit) != 1:
                    e.fail("pieces", "sup: sigma = %s lies in %d pieces" % (x, len(hit)))
                v = num(hit[0][0].at(x))
                if w and not same(v, max(w)):
                    e.fail("supremum", "sup: at sigma = %s the supremum of rho/tau is %s, returned %s" % (x, max(w), v))
                if not w and not (v is not None and v <= 0):
                    e.fail("supremum", "sup: at sigma = %s no value is feasible, returned %s" % (x, v))
                if w:
                    e.probe("nontrivial")
            e.log("pieces", len(res), [str(r[1]) for r in res])
            e.cover("sup", len(ms), min(8, len(res)))

    def run_zd(self, case, e, rng, s0, s1, itv):
        H, M = [], []
        for i, s in enumerate(case["hyps"]):
            if s["t"] in ("lv", "zlv"):
                h, m = lv_hyp(s["d"], {"lv": "Large value estimate", "zlv": "Zeta large value estimate"}[s["t"]], "h%d" % i)
                m = {k: ([[un(v) for v in b] for b in s["d"][k]] if k != "cut" else un(s["d"][k])) for k in ("b", "b2", "cut") if k in s["d"]}
                if s["d"]["k"] != "split":
                    m.pop("cut", None), m.pop("b2", None)
                if s["d"]["k"] == "poly":      # all bounds at once
                    m["all"] = True
            elif s["t"] == "tf":
                h, m = LV.raise_to_power_hypothesis(un(s["p"])), un(s["p"])
            elif s["t"] == "beta":
                m = (un(s["m"]), un(s["c"]), un(s["a"]), un(s["b"]))
                h = HY.Hypothesis("beta%d" % i, "Upper bound on beta", BB.Bound_beta(FN.Affine(m[0], m[1], FN.Interval(m[2], m[3], True, True))),
                                  "See", build_ref(["lit", 1990]))
            else:
                m = (un(s["s"]), un(s["m"]))
                mh = HY.Hypothesis("mu%d" % i, "Upper bound on mu", BM.Bound_mu(*m), "See", build_ref(["lit", 1990]))
                h = ZL.mu_to_zlv(HY.Hypothesis_Set([mh]))[0]
            H.append(h)
            M.append((s["t"], m))
        if case["l2"]:
            H.append(LV.large_value_estimate_L2)
            if "_sim_addr" in H[-1].__dict__:
                H[-1]._sim_addr = env.W.new_addr()
            M.append(("lv", {"b": [[F(2), F(-2), F(0)], [F(1), F(-2), F(1)]]}))
        late = min(case.get("late", 0), len(H) - 1)
        S = HY.Hypothesis_Set(H[late:])
        act = list(zip(H, M))[late:]

        def facts(s, zeta):
            f = Facts()
            ps = [m for _, (t, m) in act if t == "tf"]
            for _, (t, m) in act:
                if t == "lv" or (t == "zlv" and zeta):
                    for k in [F(1)] + (ps if t == "lv" else []):
                        if m.get("all"):
                            for b in m["b"]:
                                f.add_max([b], s, k)
                        else:
                            f.add_max(m["b"], s, k, m.get("cut"), m.get("b2"))
                elif t == "mu" and zeta:
                    f.add_zero(lambda tau, m=m: s > m[0] + m[1] * tau, [(s - m[0]) / m[1]] if m[1] else [])
                elif t == "beta" and zeta:
                    f.add_zero(lambda tau, m=m: m[2] < 1 / tau < m[3] and s > m[0] + m[1] * tau,
                               [1 / v for v in m[2:] if v > 0] + ([(s - m[0]) / m[1]] if m[1] else []))
            return f
        if case["k"] == "zd1":
            t0 = un(case["tau0"])
            fn = ZD.lv_zlv_to_zd

            def ranges(s):
                return (t0, 2 * t0), (F(2), t0)

            def make_arg(itv):
                return t0
        else:
            m0, c0 = [un(v) for v in case["tau0"]]
            fn = ZD.lv_zlv_to_zd2

            def make_arg(itv):
                return FN.Affine(m0, c0, itv)

            def ranges(s):
                t = m0 * s + c0
                return (t * F(2, 3), t), (F(2), t * F(4, 3))
        if case["k"] == "zd1" and t0 < 2:
            # an empty range of tau for the zeta part is the caller's mistake
            t0 = F(2) + t0 / 2
        for rep in range(2 if case["again"] else 1):
            lab = case["k"] + ("-again" if rep else "")
            if rep and "s2" in case:
                if case["k"] == "zd1":
                    t0 += late
                a, b = [un(v) for v in case["s2"]]
                if case["k"] == "zd1" or min(m0 * a + c0, m0 * b + c0) > F(1, 4):
                    s0, s1 = a, b
                    itv = FN.Interval(s0, s1, *case["inc"])
                S.add_hypotheses(H[:late])
                act = list(zip(H, M))
            arg = make_arg(itv)
            members = {id(h) for h, _ in act}
            hs = self.ask(e, lambda: fn(S, itv, arg), case["fault"] if rep == 0 else None, lab)
            for h in hs:
                if not isinstance(h, HY.Hypothesis) or h.hypothesis_type != "Zero density estimate":
                    e.fail("type", "%s: not a zero density estimate: %r" % (lab, h))
            ends = check_pieces(e, lab, [h.data.interval for h in hs], s0, s1)
            pos = 0
            for x in sample_sigma(rng, ends, [], s0, s1, 14):
                (a, b), (c, d) = ranges(x)
                w1 = facts(x, False).sup(a, b)
                w2 = facts(x, True).sup(c, d) if c < d else F(0)
                hit = [h for h in hs if h.data.interval.contains(x)]
                if len(hit) != 1:
                    e.fail("pieces", "%s: sigma = %s lies in %d pieces" % (lab, x, len(hit)))
                v = num(hit[0].data.at(x))
                if w1 is None or w2 is None:
                    e.probe("unbounded")
                    continue
                w = max(w1, w2) / (1 - x)
                if w > 0 and not same(v, w):
                    e.fail("supremum", "%s: at sigma = %s the bound on A is %s, instead of %s; the suprema of rho/tau are LV %s on %s, zeta %s on %s" % (
                        lab, x, v, w, w1, fmt((a, b)), w2, fmt((c, d))))
                if w <= 0 and not (v is not None and v <= 0):
                    e.fail("supremum", "%s: at sigma = %s no large values are possible, returned %s" % (lab, x, v))
                pos += w > 0
            if pos:
                e.probe("nontrivial")
            for h in hs:
                todo, seen = list(h.dependencies), set()
                while todo:
                    q = todo.pop()
                    if id(q) in seen:
                        continue
                    seen.add(id(q))
                    todo.extend(q.dependencies)
                    if not q.dependencies and id(q) not in members and q.reference.label != "Derived" and not any(
                            isinstance(q.data, BM.Bound_mu) for _ in [0]):
                        e.fail("foreign-dependency", "%s: rests on %s, which is not in the store" % (lab, q.name))
            e.log("pieces", len(hs), [str(h.data.interval) for h in hs], pos)
            e.cover(case["k"], len(act), min(8, len(hs)), sorted({t for _, (t, _) in act}))


# --------------------------------------------------------------------- Z01
def gen_rf(rng, sqrt=True):
    """A function of x on [1/2, 1): positive there, as expression text and as a specification."""
    k = rng.choice(["const", "lin", "clin", "clin", "clin", "ll", "quad", "sqrt" if sqrt and rng.random() < 0.15 else "clin"])
    if k == "const":
        v = F(rng.randint(1, 12), rng.choice([1, 2, 4, 5]))
        return {"k": k, "n": [fr(v)], "d": ["1"], "e": str(v)}
    if k == "lin":
        a = rng.randint(1, 6)
        b = rng.choice([0, 0, 1, 2])
        return {"k": k, "n": [fr(F(a)), fr(F(b))], "d": ["1"], "e": "%d*x + %d" % (a, b) if b else "%d*x" % a}
    if k == "sqrt":
        c = F(rng.randint(1, 60), rng.choice([1, 2, 5]))
        return {"k": k, "c": fr(c), "e": "%s * (1 - x) ** (1/2)" % (c if c.denominator == 1 else float(c))}
    while True:
        c, d = rng.randint(-20, 40), rng.randint(-30, 40)
        if F(c, 2) + d > 0 and c + d > 0:
            break
    if k == "clin":
        a = rng.randint(1, 40)
        return {"k": k, "n": [fr(F(a))], "d": [fr(F(c)), fr(F(d))], "e": rng.choice(["%d/(%d*x + %d)", "%d / (%d * x - (-%d))"]) % (a, c, d)
                if d >= 0 else "%d/(%d * x - %d)" % (a, c, -d)}
    while True:
        a, b = rng.randint(-20, 20), rng.randint(-20, 30)
        if F(a, 2) + b > 0 and a + b > 0:
            break
    if k == "ll":
        return {"k": k, "n": [fr(F(a)), fr(F(b))], "d": [fr(F(c)), fr(F(d))], "e": "(%d*x + %d) / (%d*x + %d)" % (a, b, c, d)}
    f, g = rng.randint(-3, 8), rng.randint(1, 9)
    if F(f, 2) + g <= 0 or f + g <= 0:
        f = 1
    return {"k": k, "n": [fr(F(a)), fr(F(b))], "d": [fr(F(c * f)), fr(F(c * g + d * f)), fr(F(d * g))],
            "e": "(%d*x + %d) / ((%d*x + %d)*(%d*x + %d))" % (a, b, c, d, f, g)}


def horner(cs, x):
    v = F(0)
    for c in cs:
        v = v * x + un(c)
    return v


def rf_at(s, x):
    if s["k"] == "sqrt":
        return float(un(s["c"])) * float(1 - x) ** 0.5
    if s["k"] == "lit":
        return float(eval(s["e"], {"x": float(x), "__builtins__": {}}))
    return horner(s["n"], x) / horner(s["d"], x)


def rf_build(s):
    if s["k"] in ("sqrt", "lit"):
        return RFN.parse(s["e"])
    return RFN([un(v) for v in s["n"]], [un(v) for v in s["d"]])


def gen_itv(rng, lo=F(1, 2), hi=F(1)):
    g = [F(1, 2), F(3, 5), F(2, 3), F(7, 10), F(3, 4), F(189, 230), F(7, 9), F(4, 5), F(11, 14), F(7, 8), F(37, 42), F(9, 10), F(1)]
    g = [v for v in g if lo <= v <= hi]
    a, b = sorted(rng.sample(g, 2))
    if rng.random() < 0.5:
        b = hi
    if rng.random() < 0.35:
        a = lo
    return [fr(a), fr(b), rng.random() < 0.8, rng.random() < 0.4]


def itv_build(i):
    return FN.Interval(un(i[0]), un(i[1]), i[2], i[3])


def in_itv(i, x):
    a, b = un(i[0]), un(i[1])
    return (a < x or (a == x and i[2])) and (x < b or (x == b and i[3]))


_LIT = []


def literature_specs():
    """The zero density estimates of the literature database, as specifications."""
    if not _LIT:
        for h in LT.literature.list_hypotheses("Zero density estimate"):
            i = h.data.interval
            if not isinstance(i.x0, (int, F)) or not isinstance(i.x1, (int, F)):
                continue
            _LIT.append({"f": {"k": "lit", "e": h.data.expr}, "i": [fr(F(i.x0)), fr(F(i.x1)), i.include_lower, i.include_upper],
                         "ref": ["lit", 1990], "lazy": True})
        _LIT.sort(key=lambda s: (s["f"]["e"], s["i"]))
    return _LIT


class BestDensity(Workload):
    pid = "Z01"
    cases = {"quick": 300, "thorough": 6000}
    stubs = ["console", "matplotlib"]
    real = ["zero_density_estimate.py", "zero_density_energy_estimate.py", "functions.py (RationalFunction, Interval)", "hypotheses.py", "sympy"]
    rule = ("seeded histories of additions and best-estimate queries over sets of up to 7 (energy) density estimates with rational "
            "functions, constants and square roots on open, closed, nested and overlapping ranges of sigma, with parser and symbolic "
            "solver failures and interruptions followed by a retry, and concurrent callers over shared lazily parsed estimates; "
            "non-trivial when at least two estimates are best somewhere; distinct by event log")

    def generate(self, rng, tier):
        hyps = []
        lit = literature_specs() if rng.random() < 0.25 else None
        if lit:
            hyps = rng.sample(lit, rng.randint(2, 6))
        for _ in range(0 if lit else rng.randint(1, 6)):
            if hyps and rng.random() < 0.15:
                h = dict(rng.choice(hyps))
                if rng.random() < 0.7:
                    h["i"] = gen_itv(rng)
                hyps.append(h)
            else:
                hyps.append({"f": gen_rf(rng), "i": gen_itv(rng), "ref": gen_ref(rng), "lazy": rng.random() < 0.75})
        n = len(hyps)
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = rng.choice(["best", "best", "best", "add", "at", "minmax", "minmax", "threads"])
            op = {"op": o, "r": rng.getrandbits(32), "fault": None, "h": [rng.randrange(n) for _ in range(rng.randint(1, 2))]}
            if o in ("best", "minmax", "at") and rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["solve", "parse_expr"], 8), gen_interrupt(rng, 3000)])
            if o == "minmax":
                op["h"] = [rng.randrange(n) for _ in range(rng.randint(0, 4))]
                op["max"] = rng.random() < 0.5
                op["track"] = rng.random() < 0.5
                op["dom"] = gen_itv(rng)
            if o == "threads":
                op["sched"] = gen_schedule(rng, 2, 1500, rng.choice([3, 30, 200]))
            ops.append(op)
        return {"hyps": hyps, "energy": rng.random() < 0.3, "init": rng.sample(range(n), rng.randint(max(0, n - 2), n)), "ops": ops}

    def ask(self, e, fn, fault, lab):
        r = e.call(fn, fault, lab)
        if r.kind == "fault":
            e.probe("faulted_then_retried")
            r = e.must(fn, lab + "-retry")
        elif not r.ok:
            e.must(fn, lab + "-again")
            e.fail("unstable", "%s raised %s once and then returned" % (lab, type(r.exc).__name__))
        return r.value

    def run(self, case, e):
        specs = case["hyps"]
        energy = case["energy"]
        typ = "Zero density energy estimate" if energy else "Zero density estimate"
        cls = ZE.Zero_Density_Energy_Estimate if energy else ZD.Zero_Density_Estimate
        H = []
        for i, s in enumerate(specs):
            if s["lazy"] or s["f"]["k"] in ("sqrt", "lit"):
                data = cls(s["f"]["e"], itv_build(s["i"]))
            else:
                data = cls.from_rational_func(rf_build(s["f"]), itv_build(s["i"]))
            H.append(HY.Hypothesis("zd%d" % i, typ, data, "proof %d" % i, build_ref(s["ref"])))
        have = {i for i in case["init"] if i < len(H)}
        S = HY.Hypothesis_Set([H[i] for i in sorted(have)])
        best = ZE.compute_best_energy_bound if energy else ZD.best_zero_density_estimate
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            rng = random.Random(op["r"])
            if op["op"] == "add":
                hs = [i % len(H) for i in op["h"]]
                S.add_hypotheses([H[i] for i in hs])
                have |= set(hs)
            elif op["op"] == "at":
                self.do_at(e, op, H, specs, rng, lab)
            elif op["op"] == "minmax":
                self.do_minmax(e, op, H, specs, rng, lab)
            elif op["op"] == "best":
                names = sorted(h.name for h in S)
                res = self.ask(e, lambda: best(S), op["fault"], lab)
                if sorted(h.name for h in S) != names:
                    e.fail("inputs-changed", "%s changed the store" % lab)
                self.judge(e, res, specs, H, have, typ, rng, lab)
            else:
                S2 = HY.Hypothesis_Set([H[i] for i in sorted(have)][: max(1, len(have) - 1)])
                have2 = {i for i in have if any(h is H[i] for h in S2)}
                rs = e.threads([lambda: best(S), lambda: best(S2)], op["sched"])
                for k, (r, hv) in enumerate(zip(rs, (have, have2))):
                    if not r.ok:
                        e.fail("thread-error", "%s: concurrent caller %d got %s: %s" % (lab, k, type(r.exc).__name__, str(r.exc)[:150]))
                    self.judge(e, r.value, specs, H, hv, typ, rng, lab + "-t%d" % k)
            if op["op"] != "add":
                for i, s in enumerate(specs):      # the estimates still say what they said
                    x = (un(s["i"][0]) + un(s["i"][1])) / 2
                    v = num(H[i].data.at(x))
                    if not same(v, rf_at(s["f"], x)):
                        e.fail("estimate-changed", "%s: estimate %s is now %s at %s, was %s" % (lab, s["f"]["e"], v, x, rf_at(s["f"], x)))

    def do_at(self, e, op, H, specs, rng, lab):
        i = op["h"][0] % len(H)
        s = specs[i]
        a, b = un(s["i"][0]), un(s["i"][1])
        for x in (a, b, (a + b) / 2, a - F(1, 100), b + F(1, 100), a + (b - a) * F(rng.randint(1, 99), 100)):
            if s["f"]["k"] == "lit" and not (a <= x <= b and x < 1):
                continue
            if x == 1 and s["f"]["k"] != "sqrt" and horner(s["f"]["d"], x) == 0:
                continue
            r = e.call(lambda: H[i].data.at(x), op["fault"], lab)
            if r.kind == "fault":
                r = e.call(lambda: H[i].data.at(x), None, lab + "-retry")
            if in_itv(s["i"], x):
                if not r.ok:
                    e.fail("at", "%s: %s on %s cannot be evaluated at %s: %s" % (lab, s["f"]["e"], H[i].data.interval, x, r.exc))
                if not same(num(r.value), rf_at(s["f"], x)):
                    e.fail("at", "%s: %s at %s is %s, should be %s" % (lab, s["f"]["e"], x, r.value, rf_at(s["f"], x)))
            elif r.ok or not isinstance(r.exc, ValueError):
                e.fail("at", "%s: %s on %s was evaluated outside at %s: %s" % (lab, s["f"]["e"], H[i].data.interval, x, r.value if r.ok else type(r.exc)))
        e.cover("at", s["f"]["k"], s["lazy"])

    def crossings(self, fs, lo, hi):
        """Approximate crossings of the functions (float), to aim the sample points."""
        out = []
        N = 160
        xs = [lo + (hi - lo) * F(k, N) for k in range(N)]

        def val(f, x):
            try:
                return float(rf_at(f, x))
            except ZeroDivisionError:
                return float("nan")
        vals = [[val(f, x) for x in xs] for f in fs]
        for i in range(len(fs)):
            for j in range(i):
                for k in range(N - 1):
                    d0, d1 = vals[i][k] - vals[j][k], vals[i][k + 1] - vals[j][k + 1]
                    if d0 * d1 < 0:
                        out.append(float(xs[k] + (xs[k + 1] - xs[k]) * F(d0 / (d0 - d1)).limit_denominator(10 ** 6)))
        return out

    def judge(self, e, res, specs, H, have, typ, rng, lab):
        lo, hi = F(1, 2), F(1)
        for h in res:
            if not isinstance(h, HY.Hypothesis) or h.hypothesis_type != typ:
                e.fail("type", "%s: a piece has type %r, not %r" % (lab, getattr(h, "hypothesis_type", type(h)), typ))
        ends = check_pieces(e, lab, [h.data.interval for h in res], lo, hi)
        hv = sorted(have)
        extra = [un(v) for i in hv for v in specs[i]["i"][:2]]
        fs = [specs[i]["f"] for i in hv]
        winners = set()
        for x in sample_sigma(rng, ends, extra + self.crossings(fs, lo, hi), lo, hi, 24):
            c = [(rf_at(specs[i]["f"], x), i) for i in hv if in_itv(specs[i]["i"], x)]
            hit = [h for h in res if h.data.interval.contains(x)]
            if len(hit) != 1:
                e.fail("pieces", "%s: sigma = %s lies in %d pieces" % (lab, x, len(hit)))
            v = num(hit[0].data.at(x))
            if not c:
                if v is None or v < 10 ** 5 or any(hit[0].name == H[i].name for i in hv):
                    e.fail("invented", "%s: at %s no estimate holds, but %s (%s) is returned" % (lab, x, v, hit[0].name))
                continue
            w = min(float(q[0]) for q in c)
            if abs(w) > 10 ** 4:       # comparable with the placeholder value
                continue
            near = [q for q in c if abs(float(q[0]) - w) <= 1e-8 * (1 + abs(w))]
            if not any(same(v, q[0]) for q in near):
                e.fail("not-best", "%s: at %s the best estimate is %s (%s), returned %s (%s)" % (
                    lab, x, near[0][0], specs[near[0][1]]["f"]["e"], v, hit[0].name))
            ok = [q[1] for q in near]
            h = hit[0]
            if not any(h.name == H[i].name and h.proof == H[i].proof and h.reference is H[i].reference for i in ok):
                e.fail("attribution", "%s: at %s the best estimate is attributed to %s, %s; it is %s" % (lab, x, h.name, h.proof, [H[i].name for i in ok]))
            if len(ok) == 1:
                winners.add(ok[0])
        if len(winners) >= 2:
            e.probe("nontrivial")
        e.log("best", len(res), [h.name for h in res], [str(specs[i]["f"]["e"]) for i in hv])
        e.cover("best", len(hv), min(8, len(res)), len(winners))

    def do_minmax(self, e, op, H, specs, rng, lab):
        hv = [i % len(H) for i in op["h"]]
        dom = itv_build(op["dom"])
        lo, hi = un(op["dom"][0]), un(op["dom"][1])
        fns = [(rf_build(specs[i]["f"]), itv_build(specs[i]["i"])) for i in hv]
        f = RFN.max if op["max"] else RFN.min
        res = self.ask(e, lambda: f(list(fns), dom, track_dependencies=op["track"]), op["fault"], lab)
        ends = check_pieces(e, lab, [r[1] for r in res], lo, hi)
        extra = [un(v) for i in hv for v in specs[i]["i"][:2]]
        for x in sample_sigma(rng, ends, extra + self.crossings([specs[i]["f"] for i in hv], lo, hi), lo, hi, 16):
            c = [(rf_at(specs[i]["f"], x), k) for k, i in enumerate(hv) if in_itv(specs[i]["i"], x)]
            hit = [r for r in res if r[1].contains(x)]
            if len(hit) != 1:
                e.fail("pieces", "%s: %s lies in %d pieces" % (lab, x, len(hit)))
            v = num(hit[0][0].at(x))
            if not c:
                if v is None or abs(v) < 10 ** 5 or (v > 0) == op["max"]:
                    e.fail("invented", "%s: nothing is defined at %s, but %s is returned" % (lab, x, v))
                if op["track"] and hit[0][2] >= 0:
                    e.fail("attribution", "%s: nothing is defined at %s, but function %s is named" % (lab, x, hit[0][2]))
                continue
            w = (max if op["max"] else min)(float(q[0]) for q in c)
            if any(abs(q[0]) > 10 ** 4 for q in c):      # comparable with the placeholder value
                continue
            near = [q for q in c if abs(float(q[0]) - w) <= 1e-8 * (1 + abs(w))]
            if not any(same(v, q[0]) for q in near):
                e.fail("not-best", "%s: at %s the %s is %s, returned %s" % (lab, x, "maximum" if op["max"] else "minimum", near[0][0], v))
            if op["track"] and hit[0][2] not in [q[1] for q in near]:
                e.fail("attribution", "%s: at %s function %s is named, the optimum is function %s" % (lab, x, hit[0][2], [q[1] for q in near]))
        e.log("minmax", len(res), [str(specs[i]["f"]["e"]) for i in hv])
        e.cover("minmax", len(hv), op["max"], op["track"], min(6, len(res)))

"""N01 the second-moment gap exponent, D02 zero density estimates from exponent pairs."""
import random
import re

from work import *  # noqa: F401,F403
from work import F, gen_interrupt, gen_solver, gen_console, gen_schedule, gen_ref, build_ref, HY, fr, un
import env  # noqa: F401
import sympy
from work_lv import LVBase
from work_fn import padd, pmul, pdiff, pgcd, pmod, pval, ptrim, real_roots
from work_zd import gen_rf, rf_build, gen_itv, itv_build, in_itv, num, same, check_pieces
from work_mu import TR, gen_pair, check_pair_proof
import functions as FN
import exponent_pair as EP
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE
import prime_gap as PG

RFN = FN.RationalFunction
HALF, ONE = F(1, 2), F(1)
# warm up the lazy imports of the solvers
sympy.limit(1 / (RFN.x - 3), RFN.x, 1, "+")
sympy.Poly(RFN.x ** 3 - RFN.x - 1, RFN.x).real_roots()
sympy.solve(RFN.x ** 3 - RFN.x - 1)
((RFN.x + 1) / (RFN.x ** 2 - 1)).simplify()


def lin(t, a, b, c, d):
    return {"k": "clin", "n": [fr(F(a)), fr(F(b))], "d": [fr(F(c)), fr(F(d))], "e": t}


A_LIT = [lin("12/5", 0, F(12, 5), 0, 1), lin("3/(2-x)", 0, 3, -1, 2), lin("3/(3*x-1)", 0, 3, 3, -1), lin("15/(5*x+3)", 0, 15, 5, 3),
         lin("9/(7*x-1)", 0, 9, 7, -1), lin("3/(2*x)", 0, 3, 2, 0), lin("2", 0, 2, 0, 1)]
B_LIT = [lin("12/(4*x-1)", 0, 12, 4, -1), lin("8 - 4*x", -4, 8, 0, 1), lin("6", 0, 6, 0, 1),
         {"k": "quad", "n": ["-11", "10"], "d": ["1", "-3", "2"], "e": "(10-11*x)/((2-x)*(1-x))"},
         {"k": "quad", "n": ["-88", "90"], "d": ["-2", "-13", "15"], "e": "2*(45-44*x)/((2*x+15)*(1-x))"},
         {"k": "quad", "n": ["-19", "18"], "d": ["2", "-6", "4"], "e": "(18-19*x)/((4-2*x)*(1-x))"}]


def polys(s):
    return [un(v) for v in s["n"]], [un(v) for v in s["d"]]


def gap_fns(a, b):
    """alpha and beta as exact fractions of polynomials, for densities A = a and A* = b."""
    (an, ad), (bn, bd) = polys(a), polys(b)
    w = padd(pmul(bn, [F(-1), F(1)]), bd, -1)
    out = []
    for n, d in ((pmul([F(2)], pmul(w, ad)), padd(pmul(bn, ad), pmul(an, bd), -1)), (pmul(w, ad), pmul(bd, an))):
        n = padd(n, pmul([F(4), F(-2)], d))
        g = pgcd(n, d)
        if len(g) > 1:
            n, d = divide(n, g), divide(d, g)
        out.append((n, d))
    return out


def divide(p, g):
    q, r = [], ptrim(p)
    m = len(g)
    r = list(r)
    while len(r) >= m:
        c = r[0] / g[0]
        q.append(c)
        r = [x - c * y for x, y in zip(r, list(g) + [F(0)] * (len(r) - m))][1:]
    return ptrim(q)


def sup_over(n, d, a, b):
    """Supremum of n/d over the open interval (a, b), no pole inside."""
    der = padd(pmul(pdiff(n), d), pmul(n, pdiff(d)), -1)
    best = max(float(pval(n, x) / pval(d, x)) for x in [(a + b) / 2] + [x for x in real_roots(der, a, b) if a < x < b])
    for x, s in ((a, 1), (b, -1)):
        v = pval(d, x)
        if v != 0:
            best = max(best, float(pval(n, x) / v))
        elif (pval(n, x) > 0) == (pval(d, x + s * F(1, 10 ** 12)) > 0):
            return float("inf")
    return best


def endpoint(t):
    """The value of a printed endpoint as a rational (to 45 digits), or None."""
    t = t.strip()
    try:
        return F(t)
    except ValueError:
        pass
    if not re.fullmatch(r"[\d\s+*/().eE-]*(?:(?:sqrt|I)[\d\s+*/().eE-]*)+", t):
        return None
    v = sympy.N(sympy.sympify(t), 45)
    if not v.is_number or abs(sympy.im(v)) > 1e-30:
        return None
    return F(str(sympy.re(v)))


LINE = re.compile(r"[\[(]([^,]+),([^,]+?)[\])] (-?(?:\d[\d.e+-]*|inf|nan)) ")


class PrimeGaps(LVBase):
    pid = "N01"
    cases = {"quick": 230, "thorough": 4000}
    rule = ("seeded stores of 1 to 4 zero density estimates and 1 to 4 additive energy estimates covering [1/2, 1] (published and drawn rational "
            "functions, some vanishing at 1, with distractors), the exponent computed one or more times with interruptions, failing "
            "solvers and consoles, growing stores, a second store with the same names and ranges, and a second caller; non-trivial when a range was compared; distinct by event log")
    real = ["prime_gap.py", "zero_density_estimate.py", "zero_density_energy_estimate.py", "functions.py", "hypotheses.py", "sympy"]

    def generate(self, rng, tier):
        while True:
            As, Bs = [], []
            for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
                r = rng.random()
                if r < 0.5:
                    f = rng.choice(A_LIT)
                elif r < 0.62:
                    a = rng.choice([1, 2, 2, 3, 4])
                    f = lin("%d*(1-x)" % a, -a, a, 0, 1)
                else:
                    f = gen_rf(rng, sqrt=False)
                As.append({"f": f, "i": gen_itv(rng)})
            for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
                r = rng.random()
                if r < 0.6:
                    f = rng.choice(B_LIT)
                elif r < 0.75:
                    a = rng.choice(As)["f"]
                    m = rng.choice([2, 2, 3])
                    f = {"k": a["k"], "n": [fr(m * un(v)) for v in a["n"]], "d": a["d"], "e": "%d*(%s)" % (m, a["e"])}
                else:
                    f = gen_rf(rng, sqrt=False)
                Bs.append({"f": f, "i": gen_itv(rng)})
            for T in (As, Bs):
                T[0]["i"] = ["1/2", "1", True, rng.random() < 0.2]
                for s in T[1:]:
                    s["i"][2:] = [True, False]
                rng.shuffle(T)
            if self.admissible(As, Bs):
                break
        n = len(As) + len(Bs)
        other = None
        if rng.random() < 0.35:
            # another store with the same names and ranges, and other functions
            for _ in range(20):
                A2 = [dict(s, f=rng.choice(A_LIT) if rng.random() < 0.7 else s["f"]) for s in As]
                B2 = [dict(s, f=rng.choice(B_LIT) if rng.random() < 0.4 else s["f"]) for s in Bs]
                if (A2, B2) != (As, Bs) and self.admissible(A2, B2):
                    other = [A2, B2]
                    break
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) + (other is not None)):
            r = rng.random()
            if r < 0.12 and ops:
                ops.append({"op": "threads", "debug": False, "sched": gen_schedule(rng, 2, 3000, rng.choice([10, 80]))})
                continue
            op = {"op": "gap", "fault": None, "debug": rng.random() < 0.15, "other": other is not None and rng.random() < 0.5}
            r = rng.random()
            if r < 0.3:
                op["fault"] = gen_interrupt(rng, 4000)
            elif r < 0.42:
                op["fault"] = gen_solver(rng, ["solve", "parse_expr"], 6)
            elif r < 0.54:
                op["fault"] = gen_console(rng, 6)
            ops.append(op)
        late = rng.choice([None, rng.randrange(n)]) if len(ops) > 1 else None
        return {"A": As, "B": Bs, "other": other, "order": rng.sample(range(n), n), "late": late, "ops": ops, "extra": rng.randint(0, 2)}

    def admissible(self, As, Bs):
        """Where both estimates hold, A* - A has no zero on [1/2, 1], A none before 1, and everything is finite before 1."""
        for T in (As, Bs):
            for s in T:
                n, d = polys(s["f"])
                a, b = un(s["i"][0]), un(s["i"][1])
                if real_roots(d, a, b) or [x for x in real_roots(n, a, b) if x != 1 or T is Bs]:
                    return False
                if pval(n, (a + b) / 2) / pval(d, (a + b) / 2) < 0:
                    return False
                if max(pval(n, x) / pval(d, x) for x in [a + (b - a) * F(i, 24) for i in range(25)]) > 500:
                    return False
        for s in As:
            for t in Bs:
                a, b = max(un(s["i"][0]), un(t["i"][0])), min(un(s["i"][1]), un(t["i"][1]))
                if a >= b:
                    continue
                (an, ad), (bn, bd) = polys(s["f"]), polys(t["f"])
                d = padd(pmul(bn, ad), pmul(an, bd), -1)
                if not any(d) or real_roots(d, a, b):
                    return False
        return True

    def fill(self, S, s, kind):
        ref = build_ref(["lit", 1990])
        if kind == 0:
            ZD.add_zero_density(S, s["f"]["e"], itv_build(s["i"]), ref)
        else:
            S.add_hypothesis(ZE.literature_zero_density_energy_estimate(s["f"]["e"], itv_build(s["i"]), ref))

    def run(self, case, e):
        stores = []
        for As, Bs in [(case["A"], case["B"])] + ([case["other"]] if case["other"] else []):
            S = HY.Hypothesis_Set()
            live = []
            full = {i for i, s in enumerate(As + Bs) if s["i"][:2] == ["1/2", "1"]}
            for i in case["order"]:
                if not stores and i == case["late"] and not (
                        len([j for j in full if (j < len(As)) == (i < len(As))]) == 1 and i in full):
                    continue
                self.fill(S, (As + Bs)[i], int(i >= len(As)))
                live.append(i)
            for k in range(case["extra"]):
                S.add_hypothesis(EP.trivial_exp_pair)
            stores.append((S, As, Bs, live))
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            S, As, Bs, live = stores[int(bool(op.get("other")))]
            keep = sorted((h.name, h.hypothesis_type, str(h.data), h.proof) for h in S)
            if op["op"] == "threads":
                rs = e.threads([lambda: PG.compute_gap2(S), lambda: ZD.best_zero_density_estimate(S)], op["sched"])
                for r in rs:
                    if not r.ok:
                        e.fail("concurrent", "%s: a concurrent caller got %s: %s" % (lab, type(r.exc).__name__, str(r.exc)[:150]))
                text = None
            else:
                fn = (lambda: PG.compute_gap2(S, True)) if op["debug"] else (lambda: PG.compute_gap2(S))
                r = e.call(fn, op["fault"], lab)
                if r.kind == "fault":
                    e.probe("faulted_then_retried")
                    if r.out:
                        self.judge(e, r.out.rpartition("\n")[0] + "\n", As, Bs, live, lab + "-cut", False)
                    r = e.must(fn, lab + "-retry")
                elif not r.ok:
                    e.must(fn, lab + "-again")
                    e.fail("unstable", "%s raised %s once and then returned" % (lab, type(r.exc).__name__))
                text = r.out
            if sorted((h.name, h.hypothesis_type, str(h.data), h.proof) for h in S) != keep:
                e.fail("inputs-changed", "%s: the computation changed the hypotheses" % lab)
            if text is not None:
                self.judge(e, text, As, Bs, live, lab, True)
            S, As, Bs, live = stores[0]
            if case["late"] is not None and case["late"] not in live:
                self.fill(S, (As + Bs)[case["late"]], int(case["late"] >= len(As)))
                live.append(case["late"])

    def judge(self, e, text, As, Bs, live, lab, cover):
        cur = HALF
        got = []
        for t in text.splitlines():
            m = LINE.match(t)
            if not m:
                if re.match(r"[\[(][^,]+,.*[\])] ", t):
                    return e.log("unread", t[:40])
                continue
            a, b = endpoint(m.group(1)), endpoint(m.group(2))
            if a is None or b is None:
                return e.log("unread", t[:40])
            got.append((a, b, float(m.group(3)), t))
        for a, b, v, t in got:
            if abs(a - cur) > F(1, 10 ** 12) or b <= a:
                e.fail("ranges", "%s: the ranges reported do not run from 1/2 to 1 in order: %s" % (lab, [(str(g[0]), str(g[1])) for g in got]))
            cur = b
            xs = [a + (b - a) * F(i, 8) for i in range(1, 8)]
            win = []
            for T, off in ((As, 0), (Bs, len(As))):
                on = [k for k, s in enumerate(T) if off + k in live and in_itv(s["i"], xs[3])]
                low = [min(self.value(s, x) for k, s in enumerate(T) if off + k in live and in_itv(s["i"], x)) for x in xs]
                win.append([k for k in on if all(in_itv(T[k]["i"], x) and self.value(T[k], x) == v for x, v in zip(xs, low))])
            if not all(win):
                e.fail("ranges", "%s: the best estimates change inside the range [%s, %s)" % (lab, a, b))
            wa, wb = win[0][0], win[1][0]
            want = max(sup_over(n, d, a, b) for n, d in gap_fns(As[wa]["f"], Bs[wb]["f"]))
            if not (v == want or abs(v - want) <= 1e-8 * (1 + abs(want))):
                e.fail("value", "%s: on [%s, %s) with A = %s and A* = %s the exponent is %.12g, reported %s" % (
                    lab, float(a), float(b), As[wa]["f"]["e"], Bs[wb]["f"]["e"], want, v))
            e.cover("range", As[wa]["f"]["k"], Bs[wb]["f"]["k"], b == 1, want == float("inf"))
            e.probe("nontrivial")
        if cover and abs(cur - 1) > F(1, 10 ** 12):
            e.fail("ranges", "%s: the ranges reported end at %s: %s" % (lab, cur, text[-200:]))
        e.log("gaps", len(got), ["%.9g" % g[2] for g in got])

    @staticmethod
    def value(s, x):
        n, d = polys(s["f"])
        return pval(n, x) / pval(d, x)


# --------------------------------------------------------------------- D02
BOURGAIN = [(F(11, 85), F(59, 85)), (F(391, 4595), F(3461, 4595)), (F(2779, 38033), F(58699, 76066)), (F(1101653, 15854002), F(12327829, 15854002)),
            (F(1959, 47230), F(3975, 4723)), (F(1175779, 38456886), F(16690288, 19228443)), (F(89, 3478), F(15327, 17390)), (F(1, 100), F(14, 15))]


def bourgain_range(k, l):
    if k > F(1, 5) or l < F(3, 5) or 15 * l + 20 * k < 13:
        return None
    s0 = max(HALF, (l + 1) / (2 * (k + 1)))
    if k > F(11, 85):
        s0 = max(s0, (144 * k - 11 * l - 11) / (170 * k - 22))
    return s0 if s0 < 1 else None


def ivic_v(k, l, m):
    X = 1 + 2 * k + 2 * l
    return (3 * m * m * X - (4 * k + 2 * l) * m + 2 * k + 2 * l) / (4 * m * m * X - (6 * k + 4 * l) * m + 2 * k + 2 * l)


def ivic_start(v, m):
    return min(F(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2), max(F(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2), v))


class PairDensities(LVBase):
    pid = "D02"
    cases = {"quick": 280, "thorough": 6000}
    rule = ("seeded sessions of 1 to 4 operations: Ivic's estimate for 1 to 8 random exponent pairs and m from 2 to 12, Bourgain's estimate, "
            "both from a store of pairs and transforms, merging of adjacent pieces; with interruptions, failing solvers, repeats and two callers at once; "
            "non-trivial when a derived estimate was compared; distinct by event log")
    real = ["zero_density_estimate.py", "exponent_pair.py", "bound_beta.py", "functions.py", "hypotheses.py", "reference.py", "sympy", "scipy.spatial"]

    def generate(self, rng, tier):
        ops = []

        def pairs(n):
            return [[fr(v) for v in gen_pair(rng)] for _ in range(n)]

        def ivic():
            return {"op": "ivic", "pairs": pairs(rng.choice([1, 2, 3, 5, 8])), "m": rng.choice([2, 2, 2, 3, 3, 4, 5, 6, 8, 12]),
                    "default": rng.random() < 0.5}
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.06:
                ops.append({"op": "threads", "fns": [rng.choice([ivic(), {"op": "bourgain"}]) for _ in range(2)],
                            "sched": gen_schedule(rng, 2, 2000, 40)})
                continue
            if r < 0.5:
                op = ivic()
            elif r < 0.72:
                op = {"op": "bourgain"}
            elif r < 0.80:
                op = {"op": "all", "pairs": pairs(rng.choice([0, 1, 2, 3])), "trs": rng.choice([["B"], ["B"], ["B", "C"], ["A", "B"]])}
                if "A" in op["trs"]:
                    op["pairs"] = []
                if any(o["op"] == "all" for o in ops):
                    continue
            else:
                op = {"op": "merge", "cuts": sorted(rng.sample(range(1, 40), rng.randint(1, 6))), "fs": [gen_rf(rng, sqrt=False) for _ in range(2)],
                      "pick": [rng.randrange(2) for _ in range(7)], "gap": rng.choice([None, None, rng.randrange(6)])}
            op["fault"] = None
            if op["op"] == "all" and "C" in op["trs"]:
                pass                # a second search from a half-extended store takes minutes
            elif rng.random() < 0.4:
                op["fault"] = gen_interrupt(rng, {"ivic": 60, "bourgain": 4000, "all": 60000, "merge": 60}[op["op"]])
            elif rng.random() < 0.15:
                op["fault"] = gen_solver(rng, ["solve", "parse_expr", "ConvexHull"], 8)
            ops.append(op)
        if not ops:
            ops.append(dict(ivic(), fault=None))
        return {"ops": ops, "r": rng.getrandbits(32)}

    def good(self, e, h, lab):
        if not isinstance(h, HY.Hypothesis) or h.hypothesis_type != "Zero density estimate":
            e.fail("type", "%s: returned %r" % (lab, h))
        if len(h.dependencies) != 1:
            e.fail("dependencies", "%s: the estimate cites %s, it follows from one exponent pair" % (lab, [d.name for d in h.dependencies]))
        d = list(h.dependencies)[0]
        if d.hypothesis_type != "Exponent pair":
            e.fail("dependencies", "%s: the estimate rests on %r" % (lab, d.name))
        return d

    def judge_ivic(self, e, h, m, lab, given=None):
        d = self.good(e, h, lab)
        iv = h.data.interval
        v = ivic_v(F(d.data.k), F(d.data.l), m)
        want = ivic_start(v, m)
        if given is not None:
            if not any(d is g for g in given):
                e.fail("dependencies", "%s: the estimate cites %s, which was not given" % (lab, d.data))
            want = ivic_start(min(ivic_v(g.data.k, g.data.l, m) for g in given), m)
        if num(iv.x0) != want or num(iv.x1) != 1 or not iv.include_lower:
            e.fail("range", "%s: for m = %d the estimate is claimed on %s, it holds from %s to 1" % (lab, m, iv, want))
        if ivic_start(v, m) != want:
            e.fail("dependencies", "%s: the pair %s gives sigma >= %s, not %s" % (lab, d.data, ivic_start(v, m), want))
        for i in range(5):
            x = want + (1 - want) * F(2 * i + 1, 10)
            r = e.must(lambda: h.data.at(x), lab + "-at")
            w = F(3 * m) / ((3 * m - 2) * x + 2 - m)
            if not same(num(r.value), w):
                e.fail("value", "%s: for m = %d the estimate at %s is %s, Ivic's is %s" % (lab, m, x, r.value, w))
        e.log("ivic", m, str(want))
        e.cover("ivic", m, want == v)
        e.probe("nontrivial")
        return d

    def judge_bourgain(self, e, hs, lab, rng):
        ok = [(s, k, l) for k, l in BOURGAIN for s in [bourgain_range(k, l)] if s is not None]
        lo = min(s for s, _, _ in ok)
        ends = sorted({num(v) for h in hs for v in (h.data.interval.x0, h.data.interval.x1)})
        check_pieces(e, lab, [h.data.interval for h in hs], lo, ONE)
        xs = [lo + (1 - lo) * F(2 * i + 1, 48) for i in range(24)] + [lo + (1 - lo) * F(rng.randint(1, 9999), 10000) for _ in range(6)]
        xs += [(F(a) + F(b)) / 2 for a, b in zip(ends, ends[1:])]
        for x in xs:
            at = [h for h in hs if h.data.interval.contains(x)]
            if len(at) != 1:
                e.fail("pieces", "%s: sigma = %s lies in %d pieces" % (lab, x, len(at)))
            vals = {(k, l): 4 * k / (2 * (1 + k) * x - 1 - l) for s, k, l in ok if x >= s}
            want = min(vals.values())
            got = num(at[0].data.at(x))
            if not same(got, want):
                e.fail("value", "%s: at sigma = %s the estimate is %s, Bourgain's with the best pair %s" % (lab, x, got, want))
            d = self.good(e, at[0], lab)
            if vals.get((F(d.data.k), F(d.data.l))) is None or not same(vals[(F(d.data.k), F(d.data.l))], want):
                e.fail("attribution", "%s: at sigma = %s the estimate %s is attributed to the pair %s" % (lab, x, want, d.data))
        e.log("bourgain", len(hs), [str(h.data.interval) for h in hs])
        e.cover("bourgain", len(hs))
        e.probe("nontrivial")

    def run(self, case, e):
        rng = random.Random(case["r"])
        for t in sorted(TR):
            TR[t].__dict__.pop("_sim_addr", None)
        EP.trivial_exp_pair.__dict__.pop("_sim_addr", None)
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            if op["op"] == "threads":
                made = [self.prepare(f) for f in op["fns"]]
                rs = e.threads([m[0] for m in made], op["sched"])
                for f, m, r in zip(op["fns"], made, rs):
                    if not r.ok:
                        e.fail("concurrent", "%s: a concurrent caller got %s: %s" % (lab, type(r.exc).__name__, str(r.exc)[:150]))
                    self.judge(e, f, m[1], r.value, lab, rng)
                continue
            if op["op"] == "all":
                self.run_all(e, op, lab, rng)
                continue
            if op["op"] == "merge":
                self.run_merge(e, op, lab)
                continue
            fn, given = self.prepare(op)
            self.judge(e, op, given, self.ask(e, fn, op["fault"], lab), lab, rng)

    def prepare(self, op):
        if op["op"] == "bourgain":
            return ZD.bourgain_ep_to_zd, None
        given = [EP.derived_exp_pair(un(k), un(l), "given", set()) for k, l in op["pairs"]]
        if op["m"] == 2 and op["default"]:
            return (lambda: ZD.ivic_ep_to_zd(given)), given
        return (lambda: ZD.ivic_ep_to_zd(given, op["m"])), given

    def judge(self, e, op, given, r, lab, rng):
        if op["op"] == "bourgain":
            self.judge_bourgain(e, r, lab, rng)
        else:
            if [(g.data.k, g.data.l) for g in given] != [tuple(un(v) for v in p) for p in op["pairs"]]:
                e.fail("inputs-changed", "%s: the pairs given were changed" % lab)
            self.judge_ivic(e, r, op["m"], lab, given)

    def run_all(self, e, op, lab, rng):
        base = [EP.trivial_exp_pair] + [EP.derived_exp_pair(un(k), un(l), "given", set()) for k, l in op["pairs"]] + [TR[t] for t in op["trs"]]
        S = HY.Hypothesis_Set(base)
        members = {id(h) for h in base}
        hs = self.ask(e, lambda: ZD.ep_to_zd(S), op["fault"], lab)
        iv = [h for h in hs if num(h.data.interval.x1) == 1 and list(h.dependencies) and h.proof.startswith("Follows from The exponent")]
        if len(hs) < 2 or not hs:
            e.fail("shape", "%s: returned %d estimates" % (lab, len(hs)))
        self.judge_bourgain(e, hs[:-1], lab, rng)
        d = self.judge_ivic(e, hs[-1], 2, lab)
        check_pair_proof(e, d, members, lab)
        best = min(ivic_v(F(h.data.k), F(h.data.l), 2) for h in base if h.hypothesis_type == "Exponent pair")
        if num(hs[-1].data.interval.x0) > ivic_start(best, 2):
            e.fail("not-best", "%s: the estimate is claimed from %s, a pair of the store gives it from %s" % (
                lab, hs[-1].data.interval.x0, ivic_start(best, 2)))
        have = {id(h) for h in S}
        if not members <= have:
            e.fail("inputs-changed", "%s: the store lost a hypothesis" % lab)
        e.log("all", len(iv), len(hs))

    def run_merge(self, e, op, lab):
        cuts = [F(1, 2)] + [F(1, 2) + F(c, 80) for c in op["cuts"]] + [F(1)]
        fs = [rf_build(f) for f in op["fs"]]
        pcs = [(op["pick"][i % 7], a, b) for i, (a, b) in enumerate(zip(cuts, cuts[1:]))]
        if op["gap"] is not None and len(pcs) > 2:
            pcs.pop(1 + op["gap"] % (len(pcs) - 2))
        pieces = [(fs[i], FN.Interval(a, b)) for i, a, b in pcs]
        out = self.ask(e, lambda: ZD.simplify(pieces), op["fault"], lab)
        if [(p[0] is fs[q[0]], p[1].x0, p[1].x1) for p, q in zip(pieces, pcs)] != [(True, a, b) for _, a, b in pcs]:
            e.fail("inputs-changed", "%s: merging changed the pieces given" % lab)
        for a, b in zip(out, out[1:]):
            if a[1].x1 > b[1].x0:
                e.fail("pieces", "%s: the merged pieces overlap: %s" % (lab, [str(o[1]) for o in out]))
            if a[1].x1 == b[1].x0 and a[0] == b[0]:
                e.fail("merge", "%s: neighbouring pieces with the same function were not merged" % lab)
        for i in range(161):
            x = F(1, 2) + F(i, 320)
            w = [j for j, a, b in pcs if a <= x < b]
            g = [o for o in out if o[1].contains(x)]
            if len(g) != len(w) or (w and not same(num(g[0][0].at(x)), num(fs[w[0]].at(x)))):
                e.fail("merge", "%s: at %s the merged function has %d values, %d before" % (lab, x, len(g), len(w)))
        e.log("merge", len(pcs), len(out))
        e.cover("merge", len(pcs), len(out))
        if len(out) < len(pcs):
            e.probe("nontrivial")

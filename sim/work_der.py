"""X01 the packaged derivations of published results (derived.py)."""
import ast
import gc
import re
import types

from work import *  # noqa: F401,F403
from work import F, gen_interrupt, gen_solver, gen_console, gen_schedule, HY, fr, un
import env
from env import W, SRC
from work_lv import LVBase
import functions as FN
import exponent_pair as EP
import large_values as LV
import zeta_large_values as ZL
import models_lit as PL


def load():
    """The module derived, without the calls a script makes at its top level."""
    tree = ast.parse(env.REAL_OPEN(SRC + "/derived.py").read())
    tree.body = [n for n in tree.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call))]
    m = types.ModuleType("derived")
    m.__file__ = SRC + "/derived.py"
    exec(compile(tree, m.__file__, "exec"), m.__dict__)
    return m


D = load()
L = sorted(D.literature.to_list(), key=lambda h: (h.name, str(h.data), h.proof))
LITERATURE = {id(h) for h in L}
ALL = [h for h in gc.get_objects() if isinstance(h, HY.Hypothesis)]
LVK = [h for h in L if h.hypothesis_type in ("Large value estimate", "Zeta large value estimate")]


def rational(num, den):
    return lambda x: (num[0] * x + num[1]) / (den[0] * x + den[1])


H = F(1, 2)
# published exponents A(sigma), the range, and the results of the literature that a proof may use
HUX = ["Huxley large value estimate", "Hardy--Littlewood bound on \\mu(1/2)"]
JUT = ["Jutila large value estimate with k = 3"]
HB78 = ["Heath-Brown (1978) zeta large value estimate"]
HB79 = ["Heath-Brown large value estimate"]
GM = ["Guth--Maynard large value estimate"]
ZEROS = {
    "ingham_1940": ([(H, F(3, 4), rational((0, 3), (-1, 2)))], [], 1940),
    "huxley_1972": ([(F(3, 4), F(1), rational((0, 3), (3, -1)))], HUX, 1972),
    "jutila_1977": ([(F(11, 14), F(1), rational((0, 2), (0, 1)))], JUT, 1977),
    "heathbrown_1979a": ([(F(11, 14), F(1), rational((0, 9), (7, -1)))], JUT + HB78, 1979),
    "heathbrown_1979b": ([(F(20, 23), F(25, 28), rational((0, 3), (10, -7))),
                          (F(25, 28), F(1), rational((0, 4), (4, -1)))], JUT + HB78 + HB79, 1979),
    "guth_maynard_2024": ([(F(7, 10), F(9, 10), rational((0, 15), (5, 3)))], GM, 2024),
    "heathbrown_extended": ([(F(20, 23), F(1), rational((0, 3), (10, -7)))], JUT + HB79, 1979),
}
FAST = [k + "_v2" for k in sorted(ZEROS)]
SLOW = sorted(ZEROS)
TAU2 = {"ingham_1940": (-1, 2), "huxley_1972": (3, -1), "jutila_1977": (0, F(3, 2)), "heathbrown_1979a": (F(7, 3), F(-1, 3)),
        "guth_maynard_2024": (1, F(3, 5))}
# additive energies: published A*(sigma) as (upper end of the piece, value)
R = F
ENERGY = {
    "prove_zero_density_energy_4": (R(664, 877), ["Guth--Maynard large value estimate", "Jutila large value estimate with k = 10"], [
        (R(284, 375), lambda x: (473 - 650 * x) / (5 * (x - 1) * (190 * x - 141))),
        ((6038 - 2 * 352321 ** .5) / 6405, lambda x: (91 * x - 72) / (7 * (x - 1) * (11 * x - 8))),
        (R(31, 40), lambda x: 5 * (19 * x - 18) / (2 * (x - 1) * (5 * x + 3)))]),
    "prove_zero_density_energy_5": (R(42, 55), ["Jutila large value estimate with k = 6"], [
        (R(97, 127), lambda x: (19 * x - 18) / (6 * (x - 1) * (15 * x - 11))),
        (R(79, 103), lambda x: 3 * (19 * x - 18) / (4 * (x - 1) * (4 * x - 1)))]),
    "prove_zero_density_energy_6": (R(79, 103), ["Jutila large value estimate with k = 5"], [
        (R(33, 43), lambda x: (19 * x - 18) / (2 * (x - 1) * (37 * x - 27))),
        (R(84, 109), lambda x: 5 * (19 * x - 18) / (2 * (x - 1) * (13 * x - 3)))]),
    "prove_zero_density_energy_8": (R(37, 49), ["Guth--Maynard large value estimate", "Jutila large value estimate with k = 13"], [
        (R(4359, 5770), lambda x: (173 - 270 * x) / (16 * (x - 1) * (125 * x - 93))),
        (R(241, 319), lambda x: (653 - 890 * x) / (10 * (x - 1) * (125 * x - 93))),
        (R(443, 586), lambda x: (1190 * x - 1151) / (20 * (x - 1) * (15 * x - 2)))]),
    "prove_zero_density_energy_9": (R(443, 586), ["Guth--Maynard large value estimate", "Jutila large value estimate with k = 12", HB78[0]], [
        (R(409, 541), lambda x: (593 - 810 * x) / (5 * (x - 1) * (230 * x - 171))),
        (R(373, 493), lambda x: 4 * (275 * x - 266) / (5 * (x - 1) * (55 * x - 7)))]),
    "prove_zero_density_energy_10": (R(373, 493), ["Guth--Maynard large value estimate", "Jutila large value estimate with k = 11"], [
        (R(314, 415), lambda x: (533 - 730 * x) / (30 * (x - 1) * (35 * x - 26))),
        (R(171, 226), lambda x: 3 * (33 * x - 26) / ((x - 1) * (85 * x - 62))),
        (R(103, 136), lambda x: (185 * x - 174) / ((x - 1) * (31 * x + 2)))]),
    "prove_improved_heath_brown_energy_estimate": (R(3, 4), ["Huxley large value estimate", HB78[0]], [
        ((143 + 13889 ** .5) / 328, lambda x: (19 * x - 18) / (2 * (x - 1) * (3 * x - 1))),
        (R(4, 5), lambda x: 4 * (9 * x - 10) / (5 * (x - 1) * (4 * x - 1)))]),
    "prove_zero_density_energy_2": (R(7, 10), ["Guth--Maynard large value estimate"], [
        (0.7255782330963900973348270455, lambda x: 5 * (18 - 19 * x) / ((2 * (5 * x + 3)) * (1 - x))),
        (R(3, 4), lambda x: 2 * (45 - 44 * x) / ((2 * x + 15) * (1 - x)))]),
    "prove_heath_brown_energy_estimate": (R(1, 2), ["Huxley large value estimate", HB78[0], "Heath-Brown large value energy region 2b"], [
        (R(2, 3), lambda x: (10 - 11 * x) / ((2 - x) * (1 - x))),
        (R(3, 4), lambda x: (18 - 19 * x) / (2 * (2 - x) * (1 - x))),
        ((143 + 13889 ** .5) / 328, lambda x: (19 * x - 18) / (2 * (x - 1) * (3 * x - 1))),
        (R(5, 6), lambda x: 4 * (9 * x - 10) / (5 * (x - 1) * (4 * x - 1))),
        (R(25, 28), lambda x: 12 / (4 * x - 1))]),
}
QUICK_ENERGY = sorted(set(ENERGY) - {"prove_heath_brown_energy_estimate", "prove_zero_density_energy_2"})
PAIRS = {(F(1, 6), F(2, 3)): 1920, (F(13, 31), F(16, 31)): 1920, (F(4, 11), F(6, 11)): 1920, (F(2, 7), F(4, 7)): 1920,
         (F(5, 24), F(5, 8)): 1920, (F(2, 9), F(11, 18)): 1920, (F(3, 40), F(31, 40)): 1989}
PK = sorted(PAIRS)
BYNAME = {}
for _h in L:
    BYNAME.setdefault(_h.name, []).append(_h)
PROBES = [(F(3, 4), F(2), F(1, 3)), (F(7, 10), F(6, 5), F(2, 5)), (F(9, 10), F(3), F(1, 5)), (F(4, 5), F(3, 2), F(1, 2)),
          (F(13, 20), F(1), F(3, 10))]


def snapshot(store):
    out = []
    for h in store:
        out.append((id(h), h.name, h.hypothesis_type, h.proof, id(h.reference), str(h.reference.year()), len(h.dependencies)))
    return sorted(out)


def contents():
    return [[bool(h.data.region.contains(list(p))) for p in PROBES] for h in LVK]


BASE = snapshot(L)
BASEC = contents()


class Derivations(LVBase):
    pid = "X01"
    cases = {"quick": 480, "thorough": 6000}
    rule = ("seeded sessions of 1 to 3 packaged derivations (zero densities by both corollaries on their own and on random parts of the "
            "published range, van der Corput pairs, the Hardy-Littlewood bound, the Guth-Maynard region, energy bounds, Heath-Brown's pairs, earliest and new proofs of exponent pairs, two at once) over the "
            "shipped literature in a simulated set order, with interruptions, failing solvers and consoles and repeats; non-trivial "
            "when a derived bound was compared with the published one; distinct by event log")
    real = ["derived.py", "literature.py", "zero_density_estimate.py", "large_values.py", "zeta_large_values.py", "exponent_pair.py",
            "bound_mu.py", "bound_beta.py", "region.py", "polytope.py", "functions.py", "hypotheses.py", "reference.py", "pycddlib"]

    def generate(self, rng, tier):
        ops = []

        def one(light):
            r = rng.random()
            if r < 0.34:
                return {"op": "named", "name": rng.choice(FAST)}
            if r < 0.50 and not light:
                return {"op": "named", "name": rng.choice(SLOW)}
            if r < 0.68:
                k = rng.choice(sorted(TAU2))
                lo, hi, _ = ZEROS[k][0][0]
                q = rng.choice([30, 56, 97, 120])
                a = sorted({lo + (hi - lo) * F(rng.randint(0, q), q) for _ in range(2)})
                if len(a) < 2:
                    a = [lo, hi]
                return {"op": "part", "name": k, "lo": fr(a[0]), "hi": fr(a[1]), "method": 2 if light or rng.random() < 0.7 else 1}
            if r < 0.80:
                return {"op": "vdc", "k": rng.choice([2, 3, 3, 4, 5, 7, 10, rng.randint(2, 30)])}
            if r < 0.88:
                return {"op": "mu"}
            return {"op": "pair", "i": rng.randrange(len(PK)), "method": 0 if light or rng.random() < 0.8 else 1}

        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            if rng.random() < 0.08:
                ops.append({"op": "threads", "fns": [one(True) for _ in range(2)], "sched": gen_schedule(rng, 2, 4000, 150)})
                continue
            op = one(False)
            op["fault"] = None
            op["verbose"] = rng.random() < 0.5
            r = rng.random()
            if r < 0.3:
                op["fault"] = gen_interrupt(rng, 60000)
            elif r < 0.45:
                op["fault"] = gen_solver(rng, ["LinProg", "Polyhedron", "solve", "parse_expr", "ConvexHull"], 30)
            elif r < 0.55 and op["verbose"]:
                op["fault"] = gen_console(rng, 10)
            ops.append(op)
        r = rng.random()
        if r < 0.04:
            ops.append({"op": "region", "fault": None})
        elif 0.06 < r < 0.09:
            ops.append({"op": "hbpairs", "fault": rng.choice([None, gen_console(rng, 60), gen_interrupt(rng, 20000)])})
        elif 0.09 < r < 0.097:
            ops = [{"op": "proof", "v": rng.randrange(9), "fault": None}]
        elif r < 0.06:
            ops = [{"op": "energy", "name": rng.choice(QUICK_ENERGY if tier == "quick" else sorted(ENERGY)),
                    "fault": gen_interrupt(rng, 300000) if rng.random() < 0.4 else None}]
        return {"ops": ops, "shuffle": rng.getrandbits(32)}

    # ---------------------------------------------------------------- oracle
    def leaves(self, e, h, lab):
        out = []
        for d in h.recursive_dependencies():
            if not d.dependencies:
                out.append(d)
        return out

    def judge_zeros(self, e, hs, pieces, lo, hi, allowed, year, lab, extra=()):
        cur, last = lo, None
        hs = sorted(hs, key=lambda h: (h.data.interval.x0, h.data.interval.x1))
        for h in hs:
            if h.hypothesis_type != "Zero density estimate":
                e.fail("type", "%s: proved a %s" % (lab, h.hypothesis_type))
            iv = h.data.interval
            a, b = F(str(iv.x0)), F(str(iv.x1))
            if a != cur or not a < b:
                e.fail("range", "%s: the bounds proved hold on %s, expected the whole of [%s, %s)" % (
                    lab, ", ".join(str(g.data.interval) for g in hs), lo, hi))
            cur = b
            for i in range(9):
                x = a + (b - a) * F(2 * i + 1, 18)
                want = [f(x) for p, q, f in pieces if p <= x < q][0]
                got = F(str(h.data.at(x)))
                if got != want:
                    e.fail("value", "%s: at sigma = %s the bound proved is %s, the published one %s" % (lab, x, got, want))
            self.judge_deps(e, h, allowed, year, lab, extra)
        if cur != hi:
            e.fail("range", "%s: the bounds proved hold on %s, expected the whole of [%s, %s)" % (
                lab, ", ".join(str(g.data.interval) for g in hs) or "nothing", lo, hi))
        e.probe("nontrivial")

    def judge_deps(self, e, h, allowed, year, lab, extra=()):
        used = set()
        ls = self.leaves(e, h, lab)
        e.log("leaves", [d.name for d in ls])
        for d in ls:
            if id(d) in LITERATURE:
                if d.name not in allowed:
                    e.fail("dependencies", "%s: the proof uses %r (%s)" % (lab, d.name, d.reference))
                used.add(d.name)
            elif d is not LV.large_value_estimate_L2 and d is not EP.trivial_exp_pair and d.name not in extra:
                # whatever is not in the literature has to be classical or derived from nothing
                e.fail("dependencies", "%s: the proof rests on %r, which is neither in the literature nor classical" % (lab, d.name))
        if h.proof_date() != "Unknown date" and h.proof_date() > year:
            e.fail("date", "%s: the proof dates from %s, the result from %s" % (lab, h.proof_date(), year))
        return used

    def fn(self, op):
        o, v = op["op"], op.get("verbose", False)
        if o == "named":
            return lambda: getattr(D, "prove_zero_density_" + op["name"])(v)
        if o == "part":
            lo, hi = un(op["lo"]), un(op["hi"])
            hyps = [BYNAME[n][0] for n in ZEROS[op["name"]][1]]
            iv = FN.Interval(lo, hi)

            def run():
                hs = list(hyps)
                mus = [h for h in hs if h.hypothesis_type == "Upper bound on mu"]
                if mus:
                    hs = [h for h in hs if h not in mus] + list(ZL.mu_to_zlv(HY.Hypothesis_Set(mus)))
                if op["method"] == 1:
                    return D.prove_zero_density(hs, v, iv, "part", tau0=F(3), method=1)
                a, b = TAU2[op["name"]]
                return D.prove_zero_density(hs, v, iv, "part", tau0=FN.Affine(a, b, iv), method=2)
            return run
        if o == "vdc":
            return lambda: D.van_der_corput_pair(op["k"])
        if o == "mu":
            return lambda: D.prove_hardy_littlewood_mu_bound()
        if o == "pair":
            k, l = PK[op["i"]]
            m = D.Proof_Optimization_Method
            return lambda: D.best_proof_of_exponent_pair(k, l, [m.DATE, m.NONE][op["method"]], v)
        if o == "energy":
            return lambda: getattr(D, op["name"])()
        if o == "hbpairs":
            return lambda: D.prove_heathbrown_exponent_pairs()
        if o == "proof":
            k, l = PL.hull_vertices(0)[1 + op["v"]]
            return lambda: D.prove_exponent_pair(k, l, verbose=True)
        return lambda: D.prove_guth_maynard_large_values_theorem()

    def judge_energy(self, e, hs, name, lab):
        lo, names, pieces = ENERGY[name]
        names = names + ["Heath-Brown large value energy region 2a"]
        for hi, f in pieces:
            for i in range(6):
                x = F(lo + (hi - lo) * F(2 * i + 1, 12)).limit_denominator(10 ** 6)
                on = [h for h in hs if h.data.interval.contains(x)]
                if len(on) != 1:
                    e.fail("range", "%s: %d of the bounds proved hold at sigma = %s: %s" % (
                        lab, len(on), x, ", ".join(str(h.data.interval) for h in hs)))
                got = F(str(on[0].data.at(x)))
                if got != f(x):
                    e.fail("value", "%s: at sigma = %s the energy bound proved is %s, the published one %s" % (lab, x, got, f(x)))
            lo = hi
        for h in hs:
            self.judge_deps(e, h, names, 9999, lab)
        e.cover("energy", name, len(hs))
        e.probe("nontrivial")

    def judge(self, e, op, r, lab):
        o = op["op"]
        if o == "energy":
            return self.judge_energy(e, r, op["name"], lab)
        if o == "named":
            key = op["name"].replace("_v2", "")
            pieces, names, year = ZEROS[key]
            if pieces[1:] and not (isinstance(r, list) and len(r) == 2 and all(isinstance(x, list) for x in r)):
                e.fail("shape", "%s: two derivations gave %r" % (lab, r))
            extra = ["Derived exponent pair (3/40, 31/40)"] if key == "heathbrown_extended" else []
            for part, (lo, hi, _) in zip(r if pieces[1:] else [r], pieces):
                self.judge_zeros(e, part, pieces, lo, hi, names, year, lab, extra)
            e.cover("named", op["name"])
        elif o == "part":
            pieces, names, year = ZEROS[op["name"]]
            self.judge_zeros(e, r, pieces, un(op["lo"]), un(op["hi"]), names, year, lab)
            e.cover("part", op["name"], op["method"], len(r))
        elif o == "vdc":
            k = op["k"]
            w = (F(1, 2 ** k - 2), 1 - F(k - 1, 2 ** k - 2)) if k > 1 else None
            if (F(r.data.k), F(r.data.l)) != w:
                e.fail("value", "%s: the van der Corput pair for k = %d is given as (%s, %s), it is (%s, %s)" % (
                    lab, k, r.data.k, r.data.l, w[0], w[1]))
            self.judge_deps(e, r, ["van der Corput A transform", "van der Corput B transform"], 1925, lab)
            e.cover("vdc", k)
            e.probe("nontrivial")
        elif o == "mu":
            if (F(r.data.sigma), F(r.data.mu)) != (H, F(1, 6)):
                e.fail("value", "%s: the bound proved is %s" % (lab, r.data))
            self.judge_deps(e, r, ["van der Corput A transform", "van der Corput B transform"], 1925, lab)
            e.probe("nontrivial")
        elif o == "pair":
            k, l = PK[op["i"]]
            if r is None or (F(r.data.k), F(r.data.l)) != (k, l):
                e.fail("value", "%s: the proof of (%s, %s) found is %s" % (lab, k, l, None if r is None else r.data))
            names = {h.name for h in L if h.hypothesis_type in ("Exponent pair", "Exponent pair transform", "Upper bound on beta")}
            year = PAIRS[(k, l)] if op["method"] == 0 else 9999
            self.judge_deps(e, r, names, year, lab, ["Trivial exponent pair (0, 1)"])
            e.cover("pair", op["i"], op["method"])
            e.probe("nontrivial")

    def run(self, case, e):
        import random

        for h in ALL:
            h.__dict__.pop("_sim_addr", None)
        order = list(L)
        random.Random(case["shuffle"]).shuffle(order)
        D.literature = HY.Hypothesis_Set(order)
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            if op["op"] == "threads":
                rs = e.threads([self.fn(f) for f in op["fns"]], op["sched"])
                for f, r in zip(op["fns"], rs):
                    if not r.ok:
                        e.fail("concurrent", "%s: a concurrent derivation raised %s: %s" % (lab, type(r.exc).__name__, r.exc))
                    self.judge(e, f, r.value, lab)
            elif op["op"] == "region":
                r = e.must(self.fn(op), lab)
                self.judge_region(e, r.out, lab)
            elif op["op"] == "hbpairs":
                if op["fault"]:
                    e.call(self.fn(op), op["fault"], lab)
                self.judge_hbpairs(e, e.must(self.fn(op), lab).out, lab)
            elif op["op"] == "proof":
                r = e.must(self.fn(op), lab)
                self.judge_proof(e, op, r.value, r.out, lab)
            else:
                fn = self.fn(op)
                self.judge(e, op, self.ask(e, fn, op["fault"], lab), lab)
            if snapshot(D.literature) != BASE:
                a, b = {x[0]: x for x in BASE}, {x[0]: x for x in snapshot(D.literature)}
                diff = [(a.get(k) or b.get(k))[1] for k in sorted(set(a) | set(b), key=lambda k: str((a.get(k) or b.get(k))[1:]))
                        if a.get(k) != b.get(k)]
                e.fail("literature", "%s: the derivation changed the literature: %s" % (lab, diff[:5]))
        if contents() != BASEC:
            e.fail("literature", "the session changed a large value estimate of the literature")

    def judge_hbpairs(self, e, out, lab):
        """The exponent pairs printed last: Heath-Brown's pairs for m = 4..8, the classical one, and nothing outside the hull."""
        got = {(F(a), F(b)) for a, b in re.findall(r"exponent pair \((\d+(?:/\d+)?), (\d+(?:/\d+)?)\)", out.split("-" * 60)[-1])}
        want = {(F(1, 6), F(2, 3))} | {(F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2))) for m in range(4, 9)}
        if not want <= got:
            e.fail("value", "%s: the pairs %s are not found" % (lab, [tuple(map(str, p)) for p in sorted(want - got)]))
        for k, l in sorted(got):
            w = PL.hull_at(k)
            if w is not None and l < w:
                e.fail("value", "%s: (%s, %s) is below what is known of exponent pairs" % (lab, k, l))
        e.cover("hbpairs")
        e.probe("nontrivial")

    def judge_proof(self, e, op, h, out, lab):
        k, l = PL.hull_vertices(0)[1 + op["v"]]
        if h is None or (F(h.data.k), F(h.data.l)) != (k, l):
            e.fail("value", "%s: (%s, %s) is a vertex of the hull of known exponent pairs; the proof found is %s" % (lab, k, l, h and h.data))
        names = {h.name for h in L if h.hypothesis_type in ("Exponent pair", "Exponent pair transform", "Upper bound on beta")}
        self.judge_deps(e, h, names, 9999, lab, ["Trivial exponent pair (0, 1)"])
        if out.count("The exponent pair (%s, %s)" % (k, l)) < 1 or out.count("\n") < len(h.dependencies):
            e.fail("printed", "%s: the proof printed is %r" % (lab, out[:200]))
        e.cover("proof", op["v"])
        e.probe("nontrivial")

    def judge_region(self, e, out, lab):
        """The printed region at tau = 6/5 in the two remaining coordinates, where it can be read."""
        rows = []
        for t in out.split("):")[-1].strip().strip("[]").split(","):
            t = t.strip().strip("'").replace(" ", "")
            m = re.fullmatch(r"(.*?)(>=|=)0", t)
            if not m:
                return
            row = [F(0), F(0), F(0)]
            for s, c, v in re.findall(r"([+-]?)(\d+(?:/\d+)?)?([στ])?", m.group(1)):
                if c or v:
                    row["στ".find(v) + 1 if v else 0] += (-1 if s == "-" else 1) * F(c or 1)
            rows.append((row, m.group(2)))
        if not rows:
            return
        for i in range(21):
            for j in range(21):
                x, y = F(13, 20) + F(2 * i + 1, 210), F(2 * j - 3, 40)
                want = F(7, 10) <= x <= F(4, 5) and 0 <= y <= F(18, 5) - 4 * x
                got = all((r[0] + r[1] * x + r[2] * y) * (1 if q == ">=" else 0) >= 0 for r, q in rows)
                if got != want:
                    e.fail("region", "%s: (sigma, rho) = (%s, %s) at tau = 6/5 is %s the region printed, by the theorem %s: %s" % (
                        lab, x, y, "in" if got else "not in", "it is" if want else "it is not", out.strip()[-200:]))
        e.probe("nontrivial")

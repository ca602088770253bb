"""A01 large value energy regions, A02 zero density (energy) estimates from energy regions."""
import random

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_solver, gen_console, gen_ref, build_ref, HY, fr, un
import env
from models_poly import MP, ev
from work_poly import fmt, to_model
from work_region import RM, polys_of
from work_lv import LVBase, gen_lv, gen_power, lv_hyp, rows3, lv_points, BIGV
from work_zd import gen_sup, num, same, check_pieces, sample_sigma, gen_rf, gen_itv, itv_build, rf_at, rf_build, in_itv, SIG, RFN
import polytope as PT
import region as RG
import functions as FN
import large_values as LV
import exponent_pair as EP
import additive_energy as AD
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE

LVER, ZLVER = "Large value energy region", "Zeta large value energy region"


def unit(i, c, s):
    r = [F(0)] * 6
    r[0], r[i + 1] = c, F(s)
    return tuple(r)


BOX5 = [unit(0, F(-1, 2), 1), unit(0, F(1), -1)] + [q for i in range(1, 5) for q in (unit(i, F(0), 1), unit(i, BIGV, -1))]
# [constant, sigma, tau, rho, rho*, s] >= 0
POOL = [[1, -2, 0, 3, -1, 0], [4, -4, 0, 1, -1, 0], [F(3, 2), -2, 0, F(5, 2), -1, 0], [2, -2, 0, 2, -1, 0], [0, 0, 0, 3, -1, 0],
        [1, -2, F(1, 2), F(9, 8), F(-5, 8), 0], [1, -2, F(1, 4), F(21, 8), -1, 0], [2, -2, 0, -1, 0, 0], [F(3, 4), -1, F(1, 4), -1, F(1, 4), 0],
        [0, 0, 1, -1, 0, 0], [5, -6, 0, -1, 0, 0], [4, -6, 1, -2, 0, 0], [0, 0, 0, 0, -1, 0], [0, 0, 3, 0, -1, 0]]
POOL_S = [[2, 0, 0, 1, 0, -1], [1, 0, 0, 2, 0, -1], [1, 0, F(1, 2), F(5, 4), 0, -1], [0, -2, 0, 0, -1, 1], [0, -1, 0, 1, F(-1, 2), F(1, 2)]]


def gen_half(rng, s_ok):
    if rng.random() < 0.7:
        r = list(rng.choice(POOL + (POOL_S if s_ok else [])))
    else:
        r = [rng.randint(0, 5), rng.randint(-5, 0), rng.randint(-1, 2), rng.randint(-2, 3), -rng.randint(0, 2), rng.choice([0, 0, -1, 1]) if s_ok else 0]
        if not any(r[1:]):
            r[3] = -1
    return [fr(F(v)) for v in r]


def gen_lver(rng, s_ok=True):
    k = rng.choice(["max", "max", "max", "poly", "split", "inter"])
    d = {"k": k, "h": [gen_half(rng, s_ok) for _ in range(rng.choice([1, 1, 2, 2, 3]))], "ref": gen_ref(rng)}
    if rng.random() < 0.4:      # names need not tell regions apart
        d["name"] = "Heath-Brown large value energy region, in the form given by others"
    if k == "split":
        d["cut"] = fr(rng.choice([F(1), F(3, 2), F(4, 3), F(2), F(3)]))
    if k == "inter":
        d["h2"] = [gen_half(rng, s_ok) for _ in range(rng.choice([1, 1, 2]))]
    return d


def build_lver(d, box=None):
    """(region, model) of a specification."""
    hs = [[un(v) for v in h] for h in d["h"]]
    box = BOX5 if box is None else box
    if d["k"] == "poly":
        rows = [list(r) for r in box] + hs
        return RG.Region.from_polytope(PT.Polytope([list(r) for r in rows])), RM("P", mp=MP(5, rows))
    if d["k"] == "inter":
        a, b = build_lver({"k": "max", "h": d["h"]}, box), build_lver({"k": "max", "h": d["h2"]}, box)
        return RG.Region.intersect([a[0], b[0]]), RM("I", [a[1], b[1]])
    if d["k"] == "max":
        return (RG.Region.from_union_of_halfplanes([list(h) for h in hs], [list(r) for r in box]),
                RM("I", [RM("P", mp=MP(5, box)), RM("U", [RM("P", mp=MP(5, [h])) for h in hs])]))
    c = un(d["cut"])
    lo = [list(r) for r in box] + [[c, F(0), F(-1), F(0), F(0), F(0)]]
    hi = [list(r) for r in box] + [[-c, F(0), F(1), F(0), F(0), F(0)]]
    reg = RG.Region.from_union_of_halfplanes([list(h) for h in hs], [list(r) for r in lo])
    reg = RG.Region.disjoint_union(reg.child + [RG.Region.from_polytope(PT.Polytope([list(r) for r in hi]))])
    return reg, RM("D", [RM("I", [RM("P", mp=MP(5, lo)), RM("U", [RM("P", mp=MP(5, [h])) for h in hs])]), RM("P", mp=MP(5, hi))])


def scaled5(m, k):
    def sc(r):
        return r[:2] + tuple(v / k for v in r[2:])
    return m.map(lambda p: MP(5, [sc(r) for r in p.rows], [sc(r) for r in p.eqs]))


def lifted(m):
    """A (sigma, tau, rho) model in five dimensions."""
    q = m.map(lambda p: MP(5, [r + (F(0), F(0)) for r in p.rows], [r + (F(0), F(0)) for r in p.eqs]))
    return RM("I", [RM("P", mp=MP(5, BOX5[6:])), q])


def fix(m, vals, d):
    """The slice of a model at fixed coordinates {index: value}."""
    keep = [i for i in range(d) if i not in vals]

    def sub(r):
        return (r[0] + sum(r[i + 1] * v for i, v in vals.items()),) + tuple(r[i + 1] for i in keep)

    def f(p):
        return MP(len(keep), [sub(r) for r in p.rows], [sub(r) for r in p.eqs])
    return m.map(f)


def pieces(m, base, cap=400):
    """The nonempty convex pieces of base & m, or None when there are too many."""
    if m.k == "P":
        rows = base.rows + tuple_new(base.rows, m.mp.rows)
        if any(not any(r[1:]) and r[0] < 0 for r in rows):
            return []
        q = MP(base.d, [r for r in rows if any(r[1:])], base.eqs + m.mp.eqs)
        return [] if q.empty() else [q]
    if m.k == "I":
        cur = [base]
        for c in m.kids:
            nxt = []
            for b in cur:
                p = pieces(c, b, cap)
                if p is None or len(nxt) + len(p) > cap:
                    return None
                nxt += p
            cur = nxt
        return cur
    out = []
    for c in m.kids:
        p = pieces(c, base, cap)
        if p is None or len(out) + len(p) > cap:
            return None
        out += p
    return out


def tuple_new(old, new):
    have = set(old)
    return [r for r in dict.fromkeys(new) if r not in have]


def possible(m, vals, d, base):
    """Is the slice of m at these coordinates nonempty? None when it is only just so."""
    ps = pieces(fix(m, vals, d), base)
    if ps is None:
        return None
    if not ps:
        return False
    return True if any(not p.interior_empty() for p in ps) else None


def square(d, lo, hi):
    return MP(d, [tuple([-lo] + [F(int(j == i)) for j in range(d)]) for i in range(d)] +
              [tuple([hi] + [F(-int(j == i)) for j in range(d)]) for i in range(d)])


def build_dom(op):
    s, rows = [un(v) for v in op["s"]], [[un(v) for v in r] for r in op["t"]]
    base = [[-s[0], F(1), F(0)], [s[1], F(-1), F(0)]]
    if op.get("two"):
        mid = (s[0] + s[1]) / 2
        ps = [base + rows + [[mid, F(-1), F(0)]], base + rows + [[-mid, F(1), F(0)]]]
        reg = RG.Region.disjoint_union([RG.Region.from_polytope(PT.Polytope([list(r) for r in p])) for p in ps])
    else:
        reg = RG.Region.from_polytope(PT.Polytope([list(r) for r in base + rows]))
    m = MP(5, [tuple(r) + (F(0),) * 3 for r in base + rows] + BOX5[4:])
    return reg, m


class EnergyBase(LVBase):
    real = ["additive_energy.py", "large_values.py", "zeta_large_values.py", "zero_density_energy_estimate.py", "zero_density_estimate.py",
            "region.py", "helpers/region_helper.py", "polytope.py", "hypotheses.py", "reference.py", "transform.py", "pycddlib"]

    def make(self, case):
        """Hypotheses with their five-dimensional models (energy regions) or sources."""
        H, M = [], []
        for i, s in enumerate(case["hyps"]):
            t = s["t"]
            if t in ("lver", "zlver"):
                r, m = build_lver(s["d"])
                h = HY.Hypothesis(s["d"].get("name", "h%d" % i), LVER if t == "lver" else ZLVER, AD.Large_Value_Energy_Region(r), "See", build_ref(s["d"]["ref"]))
            elif t in ("lv", "zlv"):
                h, m3 = lv_hyp(s["d"], {"lv": "Large value estimate", "zlv": "Zeta large value estimate"}[t], "h%d" % i)
                m = m3
            elif t == "tf":
                h, m = AD.get_raise_to_power_hypothesis(un(s["p"])), un(s["p"])
            else:
                k, l = un(s["kl"][0]), un(s["kl"][1])
                h = HY.Hypothesis("h%d" % i, "Exponent pair", EP.Exp_pair(k, l), "See", build_ref(s["ref"]))
                m = (k, l)
            H.append(h)
            M.append(m)
        return H, M

    def good(self, e, lab, h, typ, deps=None):
        if not isinstance(h, HY.Hypothesis) or (typ and h.hypothesis_type != typ):
            e.fail("type", "%s: expected a hypothesis of type %r, got %r" % (lab, typ, getattr(h, "hypothesis_type", type(h).__name__)))
        if deps is not None and {id(x) for x in h.dependencies} != {id(x) for x in deps}:
            e.fail("dependencies", "%s: depends on %s instead of %s" % (lab, sorted(x.name for x in h.dependencies), sorted(x.name for x in deps)))

    def pts5(self, rng, m, n, dom=None):
        rr = rows3(m)
        s = (F(1, 2), F(1)) if dom is None else dom[0]
        t = (F(0), F(6)) if dom is None else dom[1]
        out = []
        for R in (F(4), F(12), F(60), BIGV):
            tt = t if dom is not None else (F(0), min(BIGV, R))
            out += lv_points(rng, rr, [s, tt, (F(0), R), (F(0), R), (F(0), R)], max(1, n // 4))
        return out

    def agree5(self, e, lib, m, pts, lab, name="(sigma, tau, rho, rho*, s)"):
        for x in pts:
            g, w = bool(lib.contains(list(x))), m.inside(x)
            if g != w:
                e.fail("membership", "%s: %s = %s is %s the region, by definition %s" % (
                    lab, name, fmt(x), "in" if g else "not in", "it is" if w else "it is not"))

    def agree_proj(self, e, rng, reg, want, keep, dom, lab, n=10):
        """reg, in the coordinates keep of the five, is the projection of the model want."""
        drop = [i for i in range(5) if i not in keep]
        S = RM("P", mp=MP(5, BOX5))
        both = RM("I", [S, want])
        seen = [x for x in self.pts5(rng, want, 24, dom) if both.inside(x)]
        for x in seen[:12]:
            if not reg.contains([x[i] for i in keep]):
                e.fail("projection", "%s: %s comes from %s but is excluded" % (lab, fmt(tuple(x[i] for i in keep)), fmt(x)))
        mr = sorted({r for p in polys_of(reg) for q in [to_model(p)] for r in q.rows + q.eqs if any(r[1:])})
        base = square(2, F(0), BIGV)
        pts = []
        for R in (F(4), F(12), F(60)):
            pts += lv_points(rng, mr, [dom[0], dom[1], (F(0), R)], n)
        hit = [0, 0]
        for x in pts:
            w = possible(both, dict(zip(keep, x)), 5, base)
            if w is None:
                continue
            g = bool(reg.contains(list(x)))
            hit[w] += 1
            if g != w:
                e.fail("projection", "%s: %s is %s, but %s" % (lab, fmt(x), "allowed" if g else "excluded",
                                                              "some value of the other exponents is possible" if w else "no values of the other exponents are possible"))
        if hit[0] and (hit[1] or seen):
            e.probe("nontrivial_projection")


def gen_hyps(rng, s_ok, lo=1, hi=4, kinds=("lver", "lver", "lver", "zlver", "tf", "lv", "zlv")):
    out = []
    for _ in range(rng.randint(lo, hi)):
        t = rng.choice(kinds)
        h = {"t": t}
        if t in ("lver", "zlver"):
            h["d"] = gen_lver(rng, s_ok)
        elif t in ("lv", "zlv"):
            h["d"] = gen_lv(rng)
            if h["d"]["k"] == "split" and rng.random() < 0.6:
                h["d"]["k"] = "max"
            h["d"]["b"] = h["d"]["b"][:2]
        elif t == "tf":
            h["p"] = gen_power(rng)
        else:
            k = F(rng.randint(1, 10), 20)
            h.update(kl=[fr(k), fr(1 - k * rng.choice([F(1), F(3, 2), F(1, 2)]))], ref=gen_ref(rng))
            if un(h["kl"][1]) < F(1, 2):
                h["kl"] = [fr(F(1, 6)), fr(F(2, 3))]
        out.append(h)
    return out


def gen_dom(rng):
    s = sorted(rng.sample(SIG, 2))
    t0 = rng.choice([F(0), F(1), F(2), F(2), F(3), F(4, 3)])
    rows = [[-t0, F(0), F(1)], [t0 + rng.choice([F(1), F(2), F(3)]), F(0), F(-1)]]
    if rng.random() < 0.3:
        m, c = rng.choice([(F(-1), F(2)), (F(3), F(-1)), (F(2), F(0)), (F(-2), F(4))])
        if min(m * s[0] + c, m * s[1] + c) > 0:
            rows = [[-c, -m, F(1)], [2 * c, 2 * m, F(-1)]]
    return {"s": [fr(v) for v in s], "t": [[fr(v) for v in r] for r in rows], "two": rng.random() < 0.12}


class EnergyRegion(EnergyBase):
    pid = "A01"
    cases = {"quick": 1500, "thorough": 24000}
    rule = ("seeded histories of conversions, expansions and region computations over stores of energy regions in five exponents, large "
            "value estimates, powers and exponent pairs, with solver failures and interruptions followed by a retry; non-trivial when an "
            "estimate cuts the domain; distinct by event log")

    def generate(self, rng, tier):
        hyps = gen_hyps(rng, True, 1, 4, ("lver", "lver", "lver", "zlver", "tf", "lv", "zlv", "ep"))
        n = len(hyps)
        ops = []
        for _ in range(rng.randint(1, 3)):
            o = rng.choice(["lift", "addlift", "expand", "best", "best", "best", "best", "power", "ep", "add", "star", "proj", "proj"])
            op = {"op": o, "r": rng.getrandbits(32), "i": rng.randrange(8), "zeta": rng.random() < 0.4, "debug": rng.random() < 0.3,
                  "after": rng.choice(["lv", "energy", "both", None]), "fault": None, "k": fr(rng.choice([F(2), F(3), F(3, 2)]))}
            op.update(gen_dom(rng))
            if rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["LinProg", "Polyhedron"], 40), gen_interrupt(rng, 6000)])
                if op["debug"] and rng.random() < 0.4:
                    op["fault"] = gen_console(rng, 4)
            ops.append(op)
        return {"hyps": hyps, "init": rng.sample(range(n), rng.randint(max(1, n - 1), n)), "ops": ops}

    def run(self, case, e):
        H, M = self.make(case)
        kind = [s["t"] for s in case["hyps"]]
        ini = {i for i in case["init"] if i < len(H)}
        S = HY.Hypothesis_Set([H[i] for i in sorted(ini)])
        # every hypothesis ever put in the store: id -> (kind, model), with a reference to keep the id
        self.known = {id(H[i]): (kind[i], M[i], H[i]) for i in ini}
        self.stop = False
        for n, op in enumerate(case["ops"]):
            lab = "%s#%d" % (op["op"], n)
            before = (sorted(h.name for h in S), [str(h.data) for h in H if hasattr(h.data, "region")])
            getattr(self, "op_" + op["op"])(e, op, case, S, H, M, kind, random.Random(op["r"]), lab)
            after = (sorted(h.name for h in S), [str(h.data) for h in H if hasattr(h.data, "region")])
            if before[1] != after[1] or (op["op"] not in ("addlift", "expand", "add") and before[0] != after[0]):
                e.fail("inputs-changed", "%s changed the store or an estimate in it" % lab)
            e.log(lab, sorted(h.name for h in S))
            if self.stop:
                break

    def have(self, S, *kinds):
        out = []
        for h in S:
            if id(h) in self.known and self.known[id(h)][0] in kinds:
                out.append(self.known[id(h)])
        return sorted(out, key=lambda t: t[2].name + str(t[2].reference))

    def op_add(self, e, op, case, S, H, M, kind, rng, lab):
        i = op["i"] % len(H)
        S.add_hypothesis(H[i])
        self.known[id(H[i])] = (kind[i], M[i], H[i])

    def do_lift(self, e, op, S, rng, lab):
        zeta = op["zeta"]
        src = self.have(S, "zlv" if zeta else "lv")
        hs = self.ask(e, lambda: list(AD.lv_to_lver(S, zeta=zeta)), op["fault"], lab)
        if len(hs) != len(src):
            e.fail("missing-conversion", "%s: %d energy regions from %d estimates" % (lab, len(hs), len(src)))
        out, left = [], list(src)
        for h in hs:
            self.good(e, lab, h, ZLVER if zeta else LVER)
            s = [q for q in left if any(d is q[2] for d in h.dependencies)]
            if len(s) != 1 or len(h.dependencies) != 1:
                e.fail("dependencies", "%s: an energy region depends on %s" % (lab, sorted(d.name for d in h.dependencies)))
            left.remove(s[0])
            m = lifted(s[0][1])
            self.agree5(e, h.data.region, m, self.pts5(rng, m, 20), lab)
            out.append(("zlver" if zeta else "lver", m, h))
        e.cover("lift", zeta, len(hs))
        return out

    def op_lift(self, e, op, case, S, H, M, kind, rng, lab):
        self.do_lift(e, op, S, rng, lab)

    def op_addlift(self, e, op, case, S, H, M, kind, rng, lab):
        out = self.do_lift(e, op, S, rng, lab)
        S.add_hypotheses([t[2] for t in out])
        for t in out:
            self.known[id(t[2])] = t

    def op_power(self, e, op, case, S, H, M, kind, rng, lab):
        src = self.have(S, "lver")
        if not src:
            return
        _, m0, h0 = src[op["i"] % len(src)]
        k = un(op["k"])
        tf = AD.get_raise_to_power_hypothesis(k)
        self.good(e, lab, tf, "Large value energy region transform")
        h = self.ask(e, lambda: tf.data.transform(h0), op["fault"], lab)
        self.good(e, lab, h, LVER, [h0])
        m = scaled5(m0, k)
        self.agree5(e, h.data.region, m, self.pts5(rng, m, 24), lab)
        e.cover("power", str(k))

    def op_expand(self, e, op, case, S, H, M, kind, rng, lab):
        lvers, tfs = self.have(S, "lver"), self.have(S, "tf")
        if len(lvers) * len(tfs) > 6:
            return
        before = {id(h): h for h in S}
        r = e.call(lambda: AD.expand_lver(S), op["fault"], lab)
        if not r.ok and r.kind != "fault":
            e.fail("raised", "%s raised %s: %s" % (lab, type(r.exc).__name__, r.exc))
        for q in before:
            if not any(id(h) == q for h in S):
                e.fail("lost", "%s: the store lost %s" % (lab, before[q].name))
        new = [h for h in S if id(h) not in before]
        want = [(t, l) for t in tfs for l in lvers]
        if r.ok and len(new) != len(want):
            e.fail("expansion", "%s: %d new energy regions, not %d" % (lab, len(new), len(want)))
        if len(new) > len(want):
            e.fail("expansion", "%s: %d new energy regions, at most %d expected" % (lab, len(new), len(want)))
        models = [scaled5(l[1], t[1]) for t, l in want]
        pts = self.pts5(rng, RM("U", models), 40) if models else []
        cand = []
        for h in new:
            self.good(e, lab, h, LVER)
            g = [bool(h.data.region.contains(list(x))) for x in pts]
            cand.append([i for i, (t, l) in enumerate(want) if any(d is l[2] for d in h.dependencies) and g == [models[i].inside(x) for x in pts]])
            if not cand[-1]:
                e.fail("expansion", "%s: a new energy region with dependencies %s is no power of an estimate" % (lab, sorted(d.name for d in h.dependencies)))
            self.known[id(h)] = ("lver", models[cand[-1][0]], h)

        def assign(k, used):
            return k == len(cand) or any(assign(k + 1, used | {i}) for i in cand[k] if i not in used)
        if not assign(0, frozenset()):
            e.fail("expansion", "%s: some power of an estimate is added twice" % lab)
        self.stop = any(len(c) > 1 for c in cand)       # which power is which is not known
        e.cover("expand", len(lvers), len(tfs), r.ok)

    def op_ep(self, e, op, case, S, H, M, kind, rng, lab):
        c = [i for i in range(len(H)) if kind[i] == "ep"]
        if not c:
            return
        i = c[op["i"] % len(c)]
        k, l = M[i]
        if op["zeta"]:          # a caller builds its own limits from the default ones
            c = AD.Large_Value_Energy_Region.default_constraints()
            c.append([F(1), F(0), F(-1), F(0), F(0), F(0)])
            c[0][0] = F(-3, 4)
        h = self.ask(e, lambda: AD.ep_to_lver(H[i]), op["fault"], lab)
        self.good(e, lab, h, LVER, [H[i]])
        rows = list(BOX5)
        q = 1 + 2 * k + 2 * l
        firsts = [(F(1), F(0), F(0), F(1), F(0), F(0)), (F(0), F(0), F(1, 3), F(5, 3), F(0), F(0)), (F(0), F(0), (k + l) / q, (2 + 3 * k + 4 * l) / q, F(0), F(0))]
        seconds = [(F(1), F(0), F(0), F(0), F(1), F(0)), (F(0), F(0), F(0), F(4), F(0), F(0)), (F(0), F(0), F(1, 2), F(1), F(3, 4), F(0))]
        base = (F(1), F(-2), F(0), F(0), F(-1), F(0))
        hp = [tuple(b + (x + y) / 2 for b, x, y in zip(base, f, s)) for f in firsts for s in seconds]
        m = RM("I", [RM("P", mp=MP(5, rows)), RM("U", [RM("P", mp=MP(5, [r])) for r in hp])])
        for x in self.pts5(rng, m, 24):
            s, t, rho, rs, _ = x
            w = rs <= 1 - 2 * s + max(rho + 1, 5 * rho / 3 + t / 3, ((2 + 3 * k + 4 * l) * rho + (k + l) * t) / q) / 2 + max(
                rs + 1, 4 * rho, 3 * rs / 4 + rho + t / 2) / 2
            g = bool(h.data.region.contains(list(x)))
            if g != w:
                e.fail("membership", "%s: with the exponent pair (%s, %s), %s is %s" % (lab, k, l, fmt(x), "allowed" if g else "excluded"))
        e.cover("ep")

    def op_proj(self, e, op, case, S, H, M, kind, rng, lab):
        """Projections of an energy region as it is given."""
        src = self.have(S, "lver", "zlver")
        if not src:
            return
        k, m, h = src[op["i"] % len(src)]
        if m.pieces() > 9:
            return
        dom = ((F(1, 2), F(1)), (F(0), F(6)))
        text = str(h.data.region)
        for what, fn, keep in (("lv", AD.lver_to_lv, (0, 1, 2)), ("energy", AD.lver_to_energy, (0, 1, 3))):
            if op["after"] not in (what, "both"):
                continue
            p = self.ask(e, lambda: fn(h), op["fault"], lab)
            if str(h.data.region) != text:
                e.fail("inputs-changed", "%s changed the energy region" % lab)
            if p is None:
                if any(m.inside(x) for x in self.pts5(rng, m, 24)):
                    e.fail("projection", "%s: reported empty" % lab)
                continue
            typ = "Additive energy estimate" if what == "energy" else ("Zeta large value estimate" if k == "zlver" else "Large value estimate")
            self.good(e, lab, p, typ, [h])
            self.agree_proj(e, rng, p.data.region, m, keep, dom, lab, 6)
            e.cover("proj", what, k, min(9, len(polys_of(p.data.region))))

    def op_star(self, e, op, case, S, H, M, kind, rng, lab):
        self.op_best(e, op, case, S, H, M, kind, rng, lab, star=True)

    def op_best(self, e, op, case, S, H, M, kind, rng, lab, star=False):
        zeta = op["zeta"]
        lv, tf = self.have(S, "lver"), self.have(S, "tf")
        zl = self.have(S, "zlver") if zeta else []
        facts = [t[1] for t in lv + zl] + [scaled5(t[1], p[1]) for p in tf for t in lv]
        size = 1
        for m in facts:
            size *= max(1, m.pieces())
        if size > 80 or len(facts) > 8:
            e.probe("too_large")
            return
        reg2, md = build_dom(op)
        want = RM("I", [RM("P", mp=md)] + facts)
        s = [un(v) for v in op["s"]]
        tv = [v[1] for v in MP(2, [r[:3] for r in md.rows if not any(r[3:])]).verts()]
        dom = ((s[0], s[1]), (min(tv), max(tv)))
        if star:
            h = self.ask(e, lambda: AD.compute_LV_star(S, reg2, debug=op["debug"], zeta=zeta), op["fault"], lab)
            if h is None:
                if any(want.inside(x) for x in self.pts5(rng, want, 24, dom)):
                    e.fail("projection", "%s: reported empty" % lab)
                e.probe("empty_region")
                return
            self.good(e, lab, h, None)
            self.agree_proj(e, rng, h.data.region, want, (0, 1, 3), dom, lab)
            self.check_deps(e, lab, h, lv, zl, tf)
            e.cover("star", zeta, len(facts))
            return
        h = self.ask(e, lambda: AD.compute_best_lver(S, reg2, zeta=zeta, debug=op["debug"]), op["fault"], lab)
        self.good(e, lab, h, ZLVER if zeta else LVER)
        pts = self.pts5(rng, want, 48, dom)
        self.agree5(e, h.data.region, want, pts, lab)
        for x in pts[:6]:
            if bool(h.data.contains(list(x))) != want.inside(x):
                e.fail("membership", "%s: contains(%s) is wrong" % (lab, fmt(x)))
        known = self.check_deps(e, lab, h, lv, zl, tf)
        for x in pts:
            if md.inside(x) and not want.inside(x) and all(k.inside(x) if isinstance(k, RM) else bool(k.contains(list(x))) for k in known):
                e.fail("deps-too-few", "%s: the %d listed dependencies allow %s, which the result excludes" % (lab, len(known), fmt(x)))
        cut = sum(1 for m in facts if any(md.inside(x) and not m.inside(x) for x in pts))
        if cut >= 1:
            e.probe("nontrivial")
        n = len(polys_of(h.data.region))
        e.log("best", len(facts), n, [int(want.inside(x)) for x in pts])
        e.cover("best", zeta, len(facts), min(9, n), cut)
        for what, fn, keep in (("lv", AD.lver_to_lv, (0, 1, 2)), ("energy", AD.lver_to_energy, (0, 1, 3))):
            if op["after"] not in (what, "both"):
                continue
            l2 = lab + "-" + what
            text = str(h.data.region)
            p = self.ask(e, lambda: fn(h), op["fault"], l2)
            if str(h.data.region) != text:
                e.fail("inputs-changed", "%s changed the energy region" % l2)
            if p is None:
                if any(want.inside(x) for x in pts):
                    e.fail("projection", "%s: reported empty" % l2)
                e.probe("empty_region")
                continue
            typ = "Additive energy estimate" if what == "energy" else ("Zeta large value estimate" if zeta else "Large value estimate")
            self.good(e, l2, p, typ, [h])
            self.agree_proj(e, rng, p.data.region, want, keep, dom, l2)
            e.cover(what, zeta, min(9, n), min(9, len(polys_of(p.data.region))))

    def check_deps(self, e, lab, h, lv, zl, tf):
        ids = {id(t[2]): t[1] for t in lv + zl}
        known = []
        for q in h.dependencies:
            if id(q) in ids:
                known.append(ids[id(q)])
                continue
            src = [t for t in lv if any(d is t[2] for d in q.dependencies)]
            if len(src) != 1 or len(q.dependencies) != 1 or not hasattr(q.data, "region") or not tf:
                e.fail("foreign-dependency", "%s: depends on %s, which is no available estimate or power of one" % (lab, q.name))
            known.append(q.data.region)
        return known


class EnergyBounds(EnergyBase):
    pid = "A02"
    cases = {"quick": 420, "thorough": 9000}
    stubs = ["console", "matplotlib", "clock"]
    real = EnergyBase.real + ["sympy", "functions.py (RationalFunction, Interval, Affine)"]
    rule = ("seeded suprema of rho*/tau and of rho/tau over energy regions computed from stores of energy regions, lifted large value "
            "estimates and powers, and trivial energy estimates from density estimates, with failures of the linear program, polyhedron, "
            "symbolic and parsing steps, console failures and interruptions, each retried; non-trivial when the supremum is positive "
            "somewhere; distinct by event log")

    def generate(self, rng, tier):
        k = rng.choice(["energy", "energy", "energy", "zd", "zd", "trivial", "sup", "sup", "sup", "sup"])
        s = sorted(rng.sample(SIG, 2))
        case = {"k": k, "s": [fr(v) for v in s], "r": rng.getrandbits(32), "fault": None, "inc": [rng.random() < 0.8, rng.random() < 0.4],
                "again": rng.random() < 0.15, "debug": rng.random() < 0.2}
        if rng.random() < 0.4:
            case["fault"] = rng.choice([gen_solver(rng, ["LinProg", "Polyhedron", "solve"], 60), gen_interrupt(rng, 15000), gen_console(rng, 3)])
        if k == "trivial":
            case["zd"] = [{"f": gen_rf(rng), "i": gen_itv(rng), "lazy": rng.random() < 0.5, "parsed": rng.random() < 0.3} for _ in range(rng.randint(1, 3))]
            case["fault"] = rng.choice([None, None, gen_interrupt(rng, 60)])
            return case
        if rng.random() < 0.3:
            case["s2"] = [fr(v) for v in sorted(rng.sample(SIG, 2))]
        if k == "sup":
            case["ps"] = gen_sup(rng, 3)
            return case
        case["hyps"] = gen_hyps(rng, False, 1, 3, ("lver", "lver", "lver", "zlver", "lv", "lv", "zlv", "tf"))
        m, c = rng.choice([(F(-1), F(2)), (F(3), F(-1)), (F(0), F(2)), (F(0), F(3)), (F(2), F(0)), (F(-2), F(4)), (F(0), F(3, 2)), (F(2), F(1))])
        if min(m * s[0] + c, m * s[1] + c) <= F(1, 4):
            m, c = F(0), F(3)
        case["tau0"] = [fr(m), fr(c)]
        case["which"] = rng.choice(["both", "both", "one", "two"])
        return case

    def run(self, case, e):
        rng = random.Random(case["r"])
        s0, s1 = [un(v) for v in case["s"]]
        if case["k"] == "trivial":
            return self.run_trivial(case, e, rng)
        itv = FN.Interval(s0, s1, *case["inc"])
        if case["k"] == "sup":
            return self.run_sup(case, e, rng, s0, s1, itv)
        H, M = self.make(case)
        kind = [s["t"] for s in case["hyps"]]
        if "s2" in case and case["k"] == "energy" and "part" not in case:
            # first from a part of the store, on another range; then from all of it
            n = 1 if len(H) > 1 else 0
            first = dict(case, part=True, hyps=case["hyps"][n:] if n else case["hyps"], s=case["s2"], again=False, fault=None)
            m, c = [un(v) for v in case["tau0"]]
            S = HY.Hypothesis_Set()
            if min(m * un(v) + c for v in case["s2"]) > F(1, 4):
                self.judge_bound(first, e, random.Random(case["r"]), H[n:], M[n:], S)
        else:
            S = HY.Hypothesis_Set()
        self.judge_bound(case, e, rng, H, M, S)

    def judge_bound(self, case, e, rng, H, M, S):
        s0, s1 = [un(v) for v in case["s"]]
        itv = FN.Interval(s0, s1, *case["inc"])
        kind = [s["t"] for s in case["hyps"]]
        S.add_hypotheses(H)
        known = {id(d) for h in S for d in h.dependencies}
        L = [h for h in S if id(h) not in {id(x) for x in H}]
        new = HY.Hypothesis_Set([h for h in H if id(h) not in known])
        for zeta in (False, True):
            hs = AD.lv_to_lver(new, zeta=zeta)
            S.add_hypotheses(hs)
            L += hs
        lver = [m for m, k in zip(M, kind) if k == "lver"] + [lifted(m) for m, k in zip(M, kind) if k == "lv"]
        zl = [m for m, k in zip(M, kind) if k == "zlver"] + [lifted(m) for m, k in zip(M, kind) if k == "zlv"]
        pw = [m for m, k in zip(M, kind) if k == "tf"]
        facts = lver + [scaled5(m, p) for p in pw for m in lver]
        size = 1
        for m in facts + zl:
            size *= max(1, m.pieces())
        if size > 48:
            e.probe("too_large")
            return
        m0, c0 = [un(v) for v in case["tau0"]]
        tau0 = FN.Affine(m0, c0, itv)

        def dom_rows(zeta):
            if zeta:
                return [[F(-2), F(0), F(1)], [c0, m0, F(-1)]]
            return [[-c0, -m0, F(1)], [2 * c0, 2 * m0, F(-1)]]

        def sup(s, zeta, coord):
            """Suprema of rho (2) or rho* (3) over tau, at sigma = s, by exact vertex enumeration: over the pieces with
            interior, and over all of them (the library works up to sets of measure zero)."""
            t = m0 * s + c0
            a, b = (F(2), t) if zeta else (t, 2 * t)
            if a >= b:
                return None, None
            # exponents (tau, rho, rho*): s occurs in no estimate
            base = MP(3, [(-a, 1, 0, 0), (b, -1, 0, 0), (0, 0, 1, 0), (BIGV, 0, -1, 0), (0, 0, 0, 1), (BIGV, 0, 0, -1)])
            m = RM("I", facts + (zl if zeta else []))
            m = fix(m, {0: s, 4: F(1)}, 5)
            ps = pieces(m, base, 120)
            if ps is None:
                return "many"
            best, flat = None, None
            for p in ps:
                q = max(v[1 if coord == 2 else 2] / v[0] for v in p.verts())
                flat = q if flat is None else max(flat, q)
                if not p.interior_empty():
                    best = q if best is None else max(best, q)
            return best, flat

        members, regs = {id(h) for h in H + L}, []
        names = sorted(h.name for h in S)
        if case["k"] == "energy":
            def fn():
                return ZE.lver_to_energy_bound(S, tau0, debug=case["debug"])
            coord, typ = 3, "Zero density energy estimate"
        else:
            use = {"both": (True, True), "one": (True, False), "two": (False, True)}[case["which"]]
            for zeta, u in zip((False, True), use):
                if not u:
                    regs.append(None)
                    continue
                d, _ = build_dom({"s": case["s"], "t": [[fr(v) for v in r] for r in dom_rows(zeta)]})
                regs.append(AD.compute_best_lver(S, d, zeta=zeta))

            def fn():
                return ZD.lver_to_zd(regs[0], regs[1], itv)
            coord, typ = 2, "Zero density estimate"
        for rep in range(2 if case["again"] else 1):
            lab = case["k"] + ("-again" if rep else "")
            old = [sorted(id(d) for d in r.dependencies) for r in regs if r is not None]
            hs = self.ask(e, fn, case["fault"] if rep == 0 else None, lab)
            if old != [sorted(id(d) for d in r.dependencies) for r in regs if r is not None]:
                e.fail("inputs-changed", "%s changed the dependencies of an energy region" % lab)
            if sorted(h.name for h in S) != names:
                e.fail("inputs-changed", "%s changed the store" % lab)
            for h in hs:
                self.good(e, lab, h, typ)
            ends = check_pieces(e, lab, [h.data.interval for h in hs], s0, s1)
            pos = 0
            for x in sample_sigma(rng, ends, [], s0, s1, 7):
                hit = [h for h in hs if h.data.interval.contains(x)]
                if len(hit) != 1:
                    e.fail("pieces", "%s: sigma = %s lies in %d pieces" % (lab, x, len(hit)))
                v = num(hit[0].data.at(x))
                ws = [sup(x, z, coord) for z in ((False, True) if case["k"] == "energy" else [z for z, u in zip((False, True), use) if u])]
                if "many" in ws:
                    continue
                w = max([a for a, _ in ws if a is not None] or [F(0)])
                w2 = max([b for _, b in ws if b is not None] or [F(0)])
                w, w2 = w / (1 - x), w2 / (1 - x)
                if w != w2:
                    e.probe("flat_pieces")
                    if v is None or v > w2 or (w > 0 and v < w):
                        e.fail("supremum", "%s: at sigma = %s the bound is %s, the energy regions give %s to %s" % (lab, x, v, w, w2))
                    continue
                if w > 0 and not same(v, w):
                    e.fail("supremum", "%s: at sigma = %s the bound is %s, the energy regions give %s" % (lab, x, v, w))
                if w <= 0 and not (v is not None and v <= 0):
                    e.fail("supremum", "%s: at sigma = %s nothing is possible, returned %s" % (lab, x, v))
                pos += w > 0
            if pos:
                e.probe("nontrivial")
            for h in hs:
                todo, seen = list(h.dependencies), set()
                reach = False
                while todo:
                    q = todo.pop()
                    if id(q) in seen:
                        continue
                    seen.add(id(q))
                    reach = reach or id(q) in members
                    if not q.dependencies and id(q) not in members and q.reference.label != "Derived":
                        e.fail("foreign-dependency", "%s: rests on %s, which is not in the store" % (lab, q.name))
                    todo.extend(q.dependencies)
                if pos and not reach and facts:
                    e.fail("no-dependency", "%s: an estimate depends on none of the energy regions" % lab)
            e.log("pieces", len(hs), [str(h.data.interval) for h in hs], pos)
            e.cover(case["k"], len(facts), len(zl), min(8, len(hs)), bool(pw))

    def run_sup(self, case, e, rng, s0, s1, itv):
        rows = [[[un(v) for v in r] for r in p] for p in case["ps"]]
        ms = [MP(3, p) for p in rows]
        reg = RG.Region.disjoint_union([RG.Region.from_polytope(PT.Polytope([list(r) for r in p])) for p in rows])
        if "s2" in case:
            # another range of sigma first
            a, b = [un(v) for v in case["s2"]]
            self.judge_sup(e, self.ask(e, lambda: ZE.compute_sup_LV_on_tau(reg, FN.Interval(a, b, *case["inc"])), None, "sup"), rng, ms, a, b)
        self.judge_sup(e, self.ask(e, lambda: ZE.compute_sup_LV_on_tau(reg, itv), case["fault"], "sup"), rng, ms, s0, s1)

    def judge_sup(self, e, res, rng, ms, s0, s1):
        from work_zd import slice_sup
        ends = check_pieces(e, "sup", [r[1] for r in res], s0, s1)
        for x in sample_sigma(rng, ends, {v[0] for m in ms for v in m.verts()}, s0, s1, 10):
            w = [slice_sup(m, x) for m in ms]
            w = [v for v in w if v is not None]
            hit = [r for r in res if r[1].contains(x)]
            v = num(hit[0][0].at(x)) if len(hit) == 1 else None
            if w and not same(v, max(w)) or not w and not (v is not None and v <= 0):
                e.fail("supremum", "sup: at sigma = %s the supremum of rho/tau is %s, returned %s" % (x, max(w) if w else None, v))
        e.probe("nontrivial")
        e.cover("sup", len(ms), min(8, len(res)))

    def run_trivial(self, case, e, rng):
        D, H = case["zd"], []
        for i, s in enumerate(D):
            if s["lazy"] or s["f"]["k"] in ("sqrt", "lit"):
                d = ZD.Zero_Density_Estimate(s["f"]["e"], itv_build(s["i"]))
                if s["parsed"]:
                    d.at((un(s["i"][0]) + un(s["i"][1])) / 2)
            else:
                d = ZD.Zero_Density_Estimate.from_rational_func(rf_build(s["f"]), itv_build(s["i"]))
            H.append(HY.Hypothesis("zd%d" % i, "Zero density estimate", d, "See", build_ref(["lit", 1990])))
        S = HY.Hypothesis_Set(H)
        r = e.call(lambda: ZE.add_trivial_zero_density_energy_estimates(S), case["fault"], "trivial")
        if not r.ok and r.kind != "fault":
            e.fail("raised", "trivial: %s: %s" % (type(r.exc).__name__, r.exc))
        if not r.ok:
            e.probe("faulted_then_retried")
            ZE.add_trivial_zero_density_energy_estimates(S)
        if not all(any(h is q for q in S) for h in H):
            e.fail("lost", "trivial: the store lost a zero density estimate")
        new = S.list_hypotheses("Zero density energy estimate")
        if r.ok and len(new) != len(D) + 1:
            e.fail("trivial", "trivial: %d energy estimates from %d density estimates" % (len(new), len(D)))
        for x in [F(1, 2) + F(k, 41) for k in range(1, 20)]:
            vals = []
            for h in new:
                if h.data.interval.contains(x):
                    try:
                        vals.append(float(num(h.data.at(x))))
                    except (SyntaxError, TypeError, ValueError) as ex:
                        e.fail("trivial", "trivial: %s cannot be evaluated: %s" % (h.data, type(ex).__name__))
            want = [3 * float(rf_at(s["f"], x)) for s in D if in_itv(s["i"], x)] + [3 / float(1 - x)]
            if r.ok:
                ok = len(vals) == len(want) and all(abs(a - b) <= 1e-8 * (1 + abs(b)) for a, b in zip(sorted(vals), sorted(want)))
            else:
                ok = all(any(abs(a - b) <= 1e-8 * (1 + abs(b)) for b in want) for a in vals) and all(
                    any(abs(a - b) <= 1e-8 * (1 + abs(b)) for a in vals) for b in want)
            if not ok:
                e.fail("trivial", "trivial: at sigma = %s the energy estimates give %s, three times the density estimates and 3/(1-sigma) are %s" % (
                    x, sorted(vals), sorted(want)))
        e.probe("nontrivial")
        e.cover("trivial", len(D), sorted(s["f"]["k"] for s in D))
        e.log("trivial", len(new))

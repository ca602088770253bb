"""V01 plots show what was computed."""
import builtins
import math
import os
import random
import sys
import zlib

from work import *  # noqa: F401,F403
from work import F, gen_interrupt, gen_solver, gen_console, gen_ref, build_ref, HY, fr, un
import env
from models_poly import MP, ev
from work_lv import LVBase
from work_poly import gen_poly, model_of, VModel, F_rows
from work_region import gen_tree, RegionBase, size, leaf_rows
from work_fn import gen_pw
from work_zd import gen_rf, rf_build, rf_at, gen_itv, itv_build, in_itv, literature_specs, num
from work_beta import gen_dom, build_aff
from work_text import read_lin, Bad
from models_lit import hull_vertices
import work_der
from work_der import D, ZEROS, TAU2, BYNAME
import polytope as PT
import region as RG
import functions as FN
import bound_beta as BB
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE
import zeta_large_values as ZL
import literature as LT
from constants import Constants

LITERATURE = LT.literature
PAPER = ["conv", "lindelof"]


FINE = sorted([(F(0), F(1))] + hull_vertices(160))


def hull_float(k):
    """The least l for which (k, l) is a known exponent pair, for 0 <= k <= 13/84."""
    for (a, b), (c, d) in zip(FINE, FINE[1:]):
        if a <= k <= c:
            return float(b + (d - b) * (F(k) - a) / (c - a))
    return None


class _Stop(BaseException):
    pass


def load_visualizations():
    """The module draws one figure when it is imported: keep its functions, skip that figure."""
    def stop(*a, **k):
        raise _Stop()
    path = os.path.join(os.path.dirname(FN.__file__), "visualizations.py")
    old, ZD.bourgain_ep_to_zd = ZD.bourgain_ep_to_zd, stop
    ns = {"__name__": "visualizations", "__file__": path}
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        exec(compile(open(path, encoding="utf-8").read(), path, "exec"), ns)
    except _Stop:
        pass
    finally:
        sys.stdout.close()
        sys.stdout = out
        ZD.bourgain_ep_to_zd = old
    env.W.plots, env.W.draws = [], 0
    return ns


V = load_visualizations()

LITBETA = sorted(LITERATURE.list_hypotheses("Upper bound on beta"), key=lambda h: (h.name, str(h.data)))
LITPAIR = [h for h in LITERATURE.list_hypotheses("Exponent pair")]


def lit_zd():
    return [s for s in literature_specs() if len(s["f"]["e"]) < 80]


def energy_table(x):
    """The published bounds on A*(sigma)."""
    r = [(2 / 3, lambda s: (10 - 11 * s) / ((2 - s) * (1 - s))), (.7, lambda s: (18 - 19 * s) / ((4 - 2 * s) * (1 - s))),
         ((539 - 42121 ** .5) / 460, lambda s: 5 * (18 - 19 * s) / (2 * (5 * s + 3) * (1 - s))),
         (.75, lambda s: 2 * (45 - 44 * s) / ((2 * s + 15) * (1 - s))),
         (37 / 49, lambda s: (197 - 220 * s) / (8 * (5 * s - 1) * (1 - s))),
         (4359 / 5770, lambda s: (173 - 270 * s) / (16 * (93 - 125 * s) * (1 - s))),
         (241 / 319, lambda s: (653 - 890 * s) / (10 * (93 - 125 * s) * (1 - s))),
         (443 / 586, lambda s: (1151 - 1190 * s) / (20 * (15 * s - 2) * (1 - s))),
         (409 / 541, lambda s: (593 - 810 * s) / (5 * (171 - 230 * s) * (1 - s))),
         (373 / 493, lambda s: 4 * (266 - 275 * s) / (5 * (55 * s - 7) * (1 - s))),
         (314 / 415, lambda s: (533 - 730 * s) / (30 * (26 - 35 * s) * (1 - s))),
         (171 / 226, lambda s: 3 * (26 - 33 * s) / ((85 * s - 62) * (1 - s))),
         (103 / 136, lambda s: (174 - 185 * s) / ((31 * s + 2) * (1 - s))),
         ((6038 - 2 * 352321 ** .5) / 6405, lambda s: (72 - 91 * s) / (7 * (11 * s - 8) * (1 - s))),
         (42 / 55, lambda s: 5 * (18 - 19 * s) / (2 * (5 * s + 3) * (1 - s))),
         (97 / 127, lambda s: (18 - 19 * s) / (6 * (15 * s - 11) * (1 - s))),
         (79 / 103, lambda s: 3 * (18 - 19 * s) / (4 * (4 * s - 1) * (1 - s))),
         (33 / 43, lambda s: (18 - 19 * s) / (2 * (37 * s - 27) * (1 - s))),
         (84 / 109, lambda s: 5 * (18 - 19 * s) / (2 * (13 * s - 3) * (1 - s))),
         ((1273 - 128689 ** .5) / 1184, lambda s: (18 - 19 * s) / (9 * (3 * s - 2) * (1 - s))),
         (5 / 6, lambda s: 4 * (10 - 9 * s) / (5 * (4 * s - 1) * (1 - s)))]
    for hi, f in r:
        if x < hi:
            return f(x)
    return 12 / (4 * x - 1)


def vdc(k, a):
    return max(a + (1 - k * a) / (2 ** k - 2), (1 - 2.0 ** (2 - k)) * a - (1 - k * a) / (2 ** k - 2))


def best_vdc(a):
    return min([1] + [vdc(k, a) for k in range(2, 30)])


def close(a, b, tol=1e-9):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def near_edge(rows, x, tol=F(1, 10 ** 7)):
    return any(any(r[1:]) and abs(ev(r, x)) <= tol * max(abs(v) for v in r[1:]) for r in rows)


class Plots(LVBase):
    pid = "V01"
    cases = {"quick": 1100, "thorough": 12000}
    rule = ("seeded drawings of polytopes, regions, piecewise functions, beta bounds, zero density estimates, proofs and the shipped "
            "figures on generated data, on a recording display that can fail at any call, with interruptions, solver and console "
            "failures followed by a retry; every point of what the completed call drew is compared with the object; non-trivial when "
            "a drawn point was compared; distinct by event log")
    real = ["polytope.py (plot)", "region.py (plot2d)", "functions.py (plot_domain)", "bound_beta.py (display_beta_bounds)",
            "zero_density_estimate.py (best_zero_density_estimate verbose)", "derived.py (prove_zero_density plot)", "visualizations.py",
            "pycddlib"]
    stubs = ["matplotlib (a recording display that can fail)", "console", "clock"]

    KINDS = ["poly"] * 8 + ["region"] * 8 + ["pw"] * 8 + ["beta"] * 6 + ["best"] * 6 + ["prove"] * 3 + ["vdc", "vdc2", "betafig", "betafig", "pairs",
                                                                                        "zdfig", "zdfig", "zefig"]

    def gen_ests(self, rng, n):
        out = []
        for _ in range(n):
            if rng.random() < 0.3:
                s = dict(rng.choice(lit_zd()))
            else:
                s = {"f": gen_rf(rng), "i": gen_itv(rng), "lazy": rng.random() < 0.5}
            out.append(s)
        return out

    def generate(self, rng, tier):
        k = rng.choice(self.KINDS)
        c = {"k": k, "r": rng.getrandbits(32)}
        if k == "poly":
            c["p"] = gen_poly(rng, 2)
            c["res"] = rng.choice([2, 3, 5, 8, 13, 20, 25, None])
            c["step"] = rng.choice(["", "", "vrep", "empty", "canon", "copy"])
        elif k == "region":
            while True:
                c["t"] = gen_tree(rng, 2, rng.choice([0, 1, 1, 2, 2]), rng.choice([["I", "D", "H", "P"], ["I", "U", "D", "C", "P", "H"], ["U", "P"]]))
                if size(c["t"]) <= 10:
                    break
            c["res"] = rng.choice([2, 5, 9, 14, 20])
            c["x"], c["y"] = [[fr(v) for v in sorted(rng.sample([F(n, 2) for n in range(-6, 9)], 2))] for _ in range(2)]
        elif k == "pw":
            c["f"] = gen_pw(rng, 2)
            c["res"] = rng.choice([2, 5, 9, 14, 20])
            c["x"], c["y"] = [[fr(v) for v in sorted(rng.sample([F(n, 2) for n in range(-2, 9)], 2))] for _ in range(2)]
            c["names"] = rng.choice(["xy", "xy", "st", "kl", None])
            c["texts"] = rng.random() < 0.5
        elif k == "beta":
            g = [F(i, 12) for i in range(13)]
            c["b"] = []
            for _ in range(rng.randint(0, 5)):
                d = gen_dom(rng, F(0), F(1, 2), [v for v in g if v <= F(1, 2)])
                c["b"].append({"m": fr(F(rng.randint(-6, 12), rng.choice([1, 2, 7]))), "c": fr(F(rng.randint(-3, 6), rng.choice([1, 6]))), "d": d,
                               "deps": rng.random() < 0.3})
                if len(c["b"]) > 1 and rng.random() < 0.4:      # the same line, elsewhere
                    c["b"][-1].update(m=c["b"][-2]["m"], c=c["b"][-2]["c"])
        elif k in ("best", "zdfig"):
            c["s"] = self.gen_ests(rng, rng.choice([1, 2, 2, 3] if k == "best" else [1, 2, 3]))
            if k == "zdfig":
                c["extra"] = self.gen_ests(rng, rng.choice([0, 1, 2]))
        elif k == "zefig":
            c["s"] = self.gen_ests(rng, rng.choice([0, 1, 2]))
            c["es"] = self.gen_ests(rng, rng.choice([0, 1])) + [{"f": gen_rf(rng, False), "i": [fr(F(1, 2)), fr(F(1)), True, True], "lazy": rng.random() < 0.7}]
        elif k == "prove":
            n = rng.choice(sorted(TAU2))
            lo, hi, _ = ZEROS[n][0][0]
            q = rng.choice([30, 56, 97])
            a = sorted({lo + (hi - lo) * F(rng.randint(0, q), q) for _ in range(2)})
            c.update(name=n, lo=fr(a[0]), hi=fr(a[-1])) if len(a) == 2 else c.update(name=n, lo=fr(lo), hi=fr(hi))
        elif k == "betafig":
            c["ns"] = sorted(rng.sample(range(len(LITBETA)), rng.choice([0, 1, 3, 6, 12])))
        r = rng.random()
        c["fault"] = None
        if r < 0.22:
            c["fault"] = {"kind": "plot", "nth": rng.randint(1, rng.choice([2, 6, 12])), "exc": rng.choice(["RuntimeError", "MemoryError", "KeyboardInterrupt"])}
        elif r < 0.42:
            c["fault"] = gen_interrupt(rng, rng.choice([300, 5000, 100000]))
        elif r < 0.50:
            c["fault"] = gen_solver(rng, ["LinProg", "Polyhedron", "solve", "parse_expr"], 6)
        elif r < 0.55:
            c["fault"] = gen_console(rng, 6)
        c["again"] = rng.random() < 0.25
        return c

    # ------------------------------------------------------------- the drawing
    def draw(self, e, fn, case, rep, lab, show=True):
        """What the (completed) call drew: its value, the curves with their labels, and the other calls."""
        r = self.ask(e, fn, case["fault"] if rep == 0 else None, lab)
        calls = list(env.W.plots)
        n = [c[0] for c in calls]
        if show and (n.count("show") != 1 or n[-1] != "show"):
            e.fail("shown", "%s: the figure was shown %d times, the last call was %s" % (lab, n.count("show"), n[-1] if n else "none"))
        curves = []
        for name, a, k in calls:
            if name == "plot":
                if len(a) < 2 or not isinstance(a[0], list) or not isinstance(a[1], list) or len(a[0]) != len(a[1]):
                    e.fail("curve", "%s: a curve without matching coordinates: %s" % (lab, str(a)[:100]))
                curves.append((a[0], a[1], k.get("label")))
        e.log("drew", n, [(len(x), str(l), zlib.crc32(repr([("%.9g" % float(v)) if v is not None else "" for v in x + y]).encode()))
                          for x, y, l in curves])
        return r, curves, calls

    def labelled(self, e, curves, word, lab):
        c = [c for c in curves if c[2] and word.lower() in c[2].lower()]
        if len(c) != 1:
            e.fail("curves", "%s: %d curves are labelled '%s': %s" % (lab, len(c), word, [c[2] for c in curves]))
        return c[0]

    def follow(self, e, curve, f, lab, what, skip=lambda x: False, tol=1e-9, lo=None, hi=None, least=50):
        xs, ys = curve[0], curve[1]
        k = 0
        for x, y in zip(xs, ys):
            if skip(float(x)):
                continue
            w = f(x)
            if (w is None) != (y is None) or w is not None and not close(y, w, tol):
                e.fail("curve-value", "%s: the curve '%s' is at %s for %s, the value there is %s" % (lab, what, y, x, w))
            k += 1
        if any(float(a) >= float(b) for a, b in zip(xs, xs[1:])):
            e.fail("curve-order", "%s: the curve '%s' does not run from left to right" % (lab, what))
        if len(xs) < least or lo is not None and abs(float(xs[0]) - lo) > 0.01 or hi is not None and abs(float(xs[-1]) - hi) > 0.01:
            e.fail("curve-range", "%s: the curve '%s' has %d points from %s to %s, expected from %s to %s" % (
                lab, what, len(xs), xs[0] if xs else None, xs[-1] if xs else None, lo, hi))
        if k:
            e.probe("nontrivial")

    def run(self, case, e):
        rng = random.Random(case["r"])
        for h in LITERATURE:
            h.__dict__.pop("_sim_addr", None)
        getattr(self, "run_" + case["k"])(case, e, rng)
        e.cover(case["k"], (case["fault"] or {}).get("kind"), case["again"])

    def reps(self, case):
        return [(0, case["k"])] + ([(1, case["k"] + "-again")] if case["again"] else [])

    # ---------------------------------------------------------------- polytopes
    def raster(self, e, lab, pts, grid, rows_of, inside, what):
        """pts: drawn points; grid: the points of the grid."""
        idx = {}
        for x in grid:
            idx[(round(float(x[0]), 9), round(float(x[1]), 9))] = x
        got = set()
        for p in pts:
            key = (round(float(p[0]), 9), round(float(p[1]), 9))
            if key not in idx:
                e.fail("raster", "%s: the point %s is drawn, which is no grid point" % (lab, fmtp(p)))
            got.add(key)
        judged = 0
        for key, x in idx.items():
            x = (F(x[0]), F(x[1]))
            if near_edge(rows_of, x):
                continue
            judged += 1
            w = inside(x)
            if w and key not in got:
                e.fail("raster", "%s: %s is in the %s and is not drawn" % (lab, fmtp(x), what))
            if not w and key in got:
                e.fail("raster", "%s: %s is not in the %s and is drawn" % (lab, fmtp(x), what))
        if judged and got:
            e.probe("nontrivial")
        return len(got)

    def run_poly(self, case, e, rng):
        p = case["p"]
        if p["k"] == "H":
            P = PT.Polytope(F_rows(p["rows"]), canonicalize=p["canon"])
            m = MP(2, F_rows(p["rows"]))
        elif p["k"] == "rect":
            P, m = PT.Polytope.rect(*[(un(a), un(b)) for a, b in p["lims"]]), model_of(p, 2)
        elif p["k"] == "V":
            pts = [tuple(un(v) for v in q) for q in p["vs"]]
            P, m = PT.Polytope.from_V_rep([list(q) for q in pts]), VModel(pts, 2)
        else:
            return
        vs = m.verts()
        if not vs or not m.bounded():
            return
        if case["step"] == "vrep":
            e.must(P.compute_V_rep, "vrep")
        elif case["step"] == "empty":
            e.must(lambda: P.is_empty(include_boundary=False), "empty")
        elif case["step"] == "canon":
            e.must(P.canonicalize, "canon")
        elif case["step"] == "copy":
            import copy
            P = e.must(lambda: copy.copy(P), "copy").value
        res = case["res"] or 100
        if case["res"] is None and rng.random() < 0.7:
            res = case["res"] = 10
        box = [[min(v[i] for v in vs), max(v[i] for v in vs)] for i in range(2)]
        grid = [(x, y) for x in steps(box[0], res) for y in steps(box[1], res)]
        for rep, lab in self.reps(case):
            _, curves, _ = self.draw(e, (lambda: P.plot(resolution=case["res"])) if case["res"] else P.plot, case, rep, lab)
            if len(curves) != 1:
                e.fail("curves", "%s: %d sets of points drawn" % (lab, len(curves)))
            n = self.raster(e, lab, list(zip(*curves[0][:2])), grid, m.rows + m.eqs, m.contains, "polytope")
            e.cover(n > 0, len(vs))

    def run_region(self, case, e, rng):
        R, m = RegionBase.build(RegionBase(), e, case["t"], 2, "")
        if not m.disjoint():
            pass
        xl, yl = [[un(v) for v in case[q]] for q in "xy"]
        res = case["res"]
        grid = [(x, y) for x in steps(xl, res) for y in steps(yl, res)]
        rows = [r for mp in m.leaves() for r in list(mp.rows) + list(mp.eqs)]
        for rep, lab in self.reps(case):
            _, curves, _ = self.draw(e, lambda: R.plot2d(tuple(xl), tuple(yl), resolution=res), case, rep, lab)
            if len(curves) != 1:
                e.fail("curves", "%s: %d sets of points drawn" % (lab, len(curves)))
            self.raster(e, lab, list(zip(*curves[0][:2])), grid, rows, m.inside, "region")

    def run_pw(self, case, e, rng):
        P = FN.Piecewise([FN.Affine2([un(v) for v in p["a"]], PT.Polytope([[un(v) for v in r] for r in p["p"]]), p["l"]) for p in case["f"]])
        ms = [(MP(2, [[un(v) for v in r] for r in p["p"]]), [un(v) for v in p["a"]]) for p in case["f"]]
        xl, yl = [[un(v) for v in case[q]] for q in "xy"]
        res, names = case["res"], case["names"]
        kw = {"title": "T", "xlabel": "first", "ylabel": "second"} if case["texts"] else {}
        if names:
            kw["variables"] = names
        # points of the half-open grid
        grid = [(x, y) for x in steps(xl, res + 1)[:-1] for y in steps(yl, res + 1)[:-1]]
        rows = [r for mp, _ in ms for r in mp.rows]
        for rep, lab in self.reps(case):
            _, curves, calls = self.draw(e, lambda: P.plot_domain(tuple(xl), tuple(yl), resolution=res, **kw), case, rep, lab)
            seen = set()
            for xs, ys, text in curves:
                try:
                    co = read_lin(text or "", list(names or "xy"))
                except Bad as x:
                    e.fail("label", "%s: %s" % (lab, x))
                if tuple(co) in seen or not any(f == co for _, f in ms):
                    e.fail("label", "%s: the series '%s' is %s" % (lab, text, "drawn twice" if tuple(co) in seen else "no piece of the function"))
                seen.add(tuple(co))
                self.raster(e, "%s '%s'" % (lab, text), list(zip(xs, ys)), grid, rows,
                            lambda x: any(mp.contains(x) for mp, f in ms if f == co), "domain of this piece")
            for mp, f in ms:
                if tuple(f) not in seen:
                    for x in grid:
                        x = (F(x[0]), F(x[1]))
                        if not near_edge(rows, x) and mp.contains(x):
                            e.fail("raster", "%s: the piece %s contains %s and is not drawn" % (lab, [str(v) for v in f], fmtp(x)))
            if case["texts"]:
                for n, w in (("title", "T"), ("xlabel", "first"), ("ylabel", "second")):
                    if [c[1] for c in calls if c[0] == n] != [[w]]:
                        e.fail("texts", "%s: the %s is %s" % (lab, n, [c[1] for c in calls if c[0] == n]))

    # -------------------------------------------------------------- beta bounds
    def run_beta(self, case, e, rng):
        H = []
        for i, b in enumerate(case["b"]):
            deps = {H[0]} if b["deps"] and H else set()
            H.append(BB.derived_bound_beta(build_aff(b), "proof %d" % i, deps))
        for rep, lab in self.reps(case):
            _, curves, calls = self.draw(e, lambda: BB.display_beta_bounds(list(H)), case, rep, lab)
            want = []
            for b in case["b"]:
                x0, x1 = un(b["d"][0]), un(b["d"][1])
                want.append((x0, x1, un(b["m"]) * x0 + un(b["c"]), un(b["m"]) * x1 + un(b["c"])))
            got = [tuple(xs) + tuple(ys) for xs, ys, _ in curves]
            if sorted(got) != sorted(want):
                e.fail("segments", "%s: the segments drawn are %s, the bounds are %s" % (
                    lab, [fmtp(g) for g in got], [fmtp(w) for w in want]))
            if H:
                e.probe("nontrivial")
            seen = {c[0]: c[1][0] for c in calls if c[0] in ("xlim", "ylim") and c[1]}
            if "xlim" in seen and not (seen["xlim"][0] <= 0 and seen["xlim"][1] >= 0.5):
                e.fail("range", "%s: the picture shows alpha in %s only" % (lab, seen["xlim"]))

    # -------------------------------------------------------- density estimates
    def est(self, s, i, cls=ZD.Zero_Density_Estimate, typ="Zero density estimate", name="e%d"):
        iv = itv_build(s["i"])
        if s.get("lazy") or s["f"]["k"] in ("lit", "sqrt"):
            d = cls(s["f"]["e"], iv)
        else:
            d = cls.from_rational_func(rf_build(s["f"]), iv)
        return HY.Hypothesis(name % i, typ, d, "proof %d" % i, build_ref(["lit", 1990]))

    def value(self, specs, x, k=1):
        """Smallest bound at x, or None."""
        v = []
        for s in specs:
            if in_itv(s["i"], x):
                try:
                    v.append(float(rf_at(s["f"], x)) * k)
                except ZeroDivisionError:
                    pass
        return min(v) if v else None

    def ends(self, specs):
        out = []
        for s in specs:
            out += [float(un(v)) for v in s["i"][:2]]
        return out

    def beside(self, specs):
        """Too close to the end of a range, but not at it."""
        br = [un(v) for s in specs for v in s["i"][:2]]
        return lambda x: any(b != F(x) and abs(float(b) - x) < 1e-9 for b in br)

    def run_best(self, case, e, rng):
        sp = case["s"]
        H = [self.est(s, i) for i, s in enumerate(sp)]
        S = HY.Hypothesis_Set(H)
        for rep, lab in self.reps(case):
            con = {}

            def go():
                return ZD.best_zero_density_estimate(S, verbose=True)
            r, curves, _ = self.draw(e, go, case, rep, lab)
            br = sorted({float(v) for h in r for v in (h.data.interval.x0, h.data.interval.x1)} | set(self.ends(sp)))

            def near(x):
                return any(abs(x - b) < 1e-9 for b in br)

            def want(x):
                v = self.value(sp, F(x))
                return 1000000 if v is None else v
            # also at the ends of the ranges that an abscissa hits exactly
            self.follow(e, self.labelled(e, curves, "Literature", lab), want, lab, "literature", self.beside(sp), 1e-7, 0.5, 1.0)
            self.follow(e, self.labelled(e, curves, "Computed", lab), want, lab, "computed", near, 1e-7, 0.5, 1.0)
            if len(curves) != 2:
                e.fail("curves", "%s: %d curves drawn" % (lab, len(curves)))
            self.listed(e, r, lab)

    def listed(self, e, r, lab):
        text = self.text(e)
        want = ["%s  %s" % (h.data, h.proof) for h in r if h.data.interval.x0 < F("0.999")]
        got = [l for l in text if l.startswith("A(x)")]
        if [" ".join(l.split()) for l in got] != [" ".join(w.split()) for w in want]:
            e.fail("listing", "%s: the estimates printed are %s, those returned %s" % (lab, got, want))

    def text(self, e):
        return [l.strip() for l in env.W.last_console.split("\n") if l.strip()]

    def run_prove(self, case, e, rng):
        lo, hi = un(case["lo"]), un(case["hi"])
        iv = FN.Interval(lo, hi)
        hyps = [BYNAME[n][0] for n in ZEROS[case["name"]][1]]
        mus = [h for h in hyps if h.hypothesis_type == "Upper bound on mu"]
        if mus:
            hyps = [h for h in hyps if h not in mus] + list(ZL.mu_to_zlv(HY.Hypothesis_Set(mus)))
        a, b = TAU2[case["name"]]
        f = ZEROS[case["name"]][0][0][2]
        for rep, lab in self.reps(case):
            r, curves, calls = self.draw(e, lambda: D.prove_zero_density(list(hyps), False, iv, "Some", tau0=FN.Affine(a, b, iv), plot=True, method=2),
                                         case, rep, lab, show=False)
            if len(curves) != 1:
                e.fail("curves", "%s: %d curves drawn" % (lab, len(curves)))
            br = [float(lo), float(hi)] + [float(v) for h in r for v in (h.data.interval.x0, h.data.interval.x1)]
            self.follow(e, curves[0], lambda x: float(f(F(x))) if lo < F(x) < hi else None, lab, "Some",
                        lambda x: any(abs(x - b) < 1e-9 for b in br), 1e-9, 0.5, 1.0)
            t = [c[1][0] for c in calls if c[0] == "title"]
            if len(t) != 1 or "Some" not in t[0]:
                e.fail("texts", "%s: the title is %s" % (lab, t))

    # ------------------------------------------------------------ the figures
    def run_vdc(self, case, e, rng):
        for rep, lab in self.reps(case):
            _, curves, _ = self.draw(e, V["van_der_corput_plot"], case, rep, lab)
            for k in range(2, 6):
                self.follow(e, self.labelled(e, curves, "k=%d" % k, lab), lambda a: vdc(k, float(a)), lab, "k=%d" % k, lo=0, hi=1)
            self.follow(e, self.labelled(e, curves, "Optimized", lab), lambda a: best_vdc(float(a)), lab, "optimized", lo=0, hi=1)
            self.follow(e, self.labelled(e, curves, "Conjectured", lab), lambda a: float(a) / 2, lab, "conjectured", lo=0, hi=1)

    def run_vdc2(self, case, e, rng):
        for rep, lab in self.reps(case):
            _, curves, _ = self.draw(e, V["van_der_corput_plot2"], case, rep, lab)
            self.follow(e, self.labelled(e, curves, "Optimized", lab), lambda a: best_vdc(float(a)), lab, "optimized", lo=0, hi=2)
            self.follow(e, self.labelled(e, curves, "Trivial", lab), float, lab, "trivial", lo=0, hi=1)
            self.follow(e, self.labelled(e, curves, "Conjectured", lab), lambda a: float(a) / 2 if a <= 1 else float(a) - 1, lab, "conjectured", lo=0, hi=2)

    def with_literature(self, hs, fn):
        V["literature"] = HY.Hypothesis_Set(hs)

        def go():
            return fn()
        return go

    def run_betafig(self, case, e, rng):
        hs = [LITBETA[i] for i in case["ns"] if i < len(LITBETA)]
        ds = [h.data.bound for h in hs]
        fs = [(F(d.m), F(d.c), F(d.domain.x0), F(d.domain.x1)) for d in ds] + [(F(1), F(0), F(0), F(1))]
        br = sorted({float(v) for f in fs for v in f[2:]})
        try:
            for rep, lab in self.reps(case):
                _, curves, _ = self.draw(e, self.with_literature(hs, V["beta_bound_plot"]), case, rep, lab)

                def want(a):
                    a = F(float(a))
                    return float(min(m * a + c for m, c, x0, x1 in fs if x0 <= a <= x1))
                self.follow(e, self.labelled(e, curves, "best upper", lab), want, lab, "best", lambda x: any(abs(x - b) < 1e-9 for b in br), lo=0, hi=0.5)
                self.follow(e, self.labelled(e, curves, "van der Corput", lab), lambda a: best_vdc(float(a)), lab, "van der Corput", lo=0, hi=0.5)
                text = self.text(e)
                if not text or not close(num(eval_num(text[-1])), 0.0):
                    e.fail("listing", "%s: the bound at 0 is printed as %s" % (lab, text[-1:]))
        finally:
            V["literature"] = LITERATURE

    def run_pairs(self, case, e, rng):
        for rep, lab in self.reps(case):
            _, curves, calls = self.draw(e, V["exp_pair_plot"], case, rep, lab)
            polys = [c[1][0] for c in calls if c[0] == "patch"]
            dots = [c[1] for c in calls if c[0] == "scatter"]
            if len(polys) != 1 or len(dots) != 1:
                e.fail("curves", "%s: %d polygons and %d sets of points" % (lab, len(polys), len(dots)))
            pts = [(float(a), float(b)) for a, b in polys[0]]
            if sorted(pts) != sorted(zip(map(float, dots[0][0]), map(float, dots[0][1]))):
                e.fail("pairs", "%s: the points are not the corners of the polygon" % lab)
            for k, l in pts:
                if not any(close(k, q[1] - .5) and close(l, q[0] + .5) for q in pts):
                    e.fail("pairs", "%s: (%s, %s) is drawn without its image under the B process" % (lab, k, l))
            t = 1e-9
            n = len(pts)
            turn = [cross(pts[i], pts[(i + 1) % n], pts[(i + 2) % n]) for i in range(n)]
            if not (all(v <= t for v in turn) or all(v >= -t for v in turn)):
                e.fail("pairs", "%s: the corners do not form a convex polygon" % lab)
            for k, l in pts:
                a, b = min((k, l), (l - .5, k + .5))
                low = hull_float(a)
                if low is not None and b < low - 1e-9:
                    e.fail("pairs", "%s: the corner (%s, %s) lies outside the known exponent pairs" % (lab, k, l))
            s = 1 if sum(turn) > 0 else -1
            for h in LITPAIR:
                q = (float(h.data.k), float(h.data.l))
                if any(s * cross(pts[i], pts[(i + 1) % n], q) < -1e-7 for i in range(n)):
                    e.fail("pairs", "%s: the exponent pair (%s, %s) lies outside the hull drawn" % (lab, h.data.k, h.data.l))
            e.probe("nontrivial")

    def run_zdfig(self, case, e, rng):
        lit, extra = case["s"], case["extra"]
        H = [self.est(s, i) for i, s in enumerate(lit)]
        X = [self.est(s, i, name="x%d") for i, s in enumerate(extra)]
        new = [{"f": {"k": "lit", "e": t}, "i": [fr(a), fr(b), True, True]} for t, a, b in (
            ("2/(9*x - 6)", F(17, 22), F(38, 49)), ("9/(8*(2*x - 1))", F(38, 49), F(4, 5)), ("3/(10 * x - 7)", F(701, 1000), F(1)))]
        old = ZD.bourgain_ep_to_zd
        ZD.bourgain_ep_to_zd = lambda *a, **k: list(X)
        try:
            for rep, lab in self.reps(case):
                _, curves, _ = self.draw(e, self.with_literature(H, V["zero_density_plot"]), case, rep, lab)
                def curve(sp):
                    def f(x):
                        v = self.value(sp, F(x))
                        return 1000000 if v is None else v
                    return f
                self.follow(e, self.labelled(e, curves, "Literature", lab), curve(lit), lab, "literature", self.beside(lit), 1e-7, 0.5, 1)
                self.follow(e, self.labelled(e, curves, "Best", lab), curve(lit + extra + new), lab, "best", self.beside(lit + extra + new), 1e-7, 0.5, 1)
                self.follow(e, self.labelled(e, curves, "Lindelof", lab), lambda x: 2 if x <= 0.75 else 0, lab, "lindelof", tol=1e-7, lo=0.5, hi=1)
        finally:
            ZD.bourgain_ep_to_zd = old
            V["literature"] = LITERATURE

    def run_zefig(self, case, e, rng):
        H = [self.est(s, i) for i, s in enumerate(case["s"])]
        X = [self.est(s, i, ZE.Zero_Density_Energy_Estimate, "Zero density energy estimate", "x%d") for i, s in enumerate(case["es"])]
        br = self.ends(case["s"] + case["es"])

        def near(x):
            return any(abs(x - b) < 1e-9 for b in br)

        def trivial(x):
            v = self.value(case["s"], F(float(x)), 3)
            w = 3 / (1 - float(x))
            return w if v is None else min(v, w)

        def lit(x):
            return min(trivial(x), self.value(case["es"], F(float(x))))
        try:
            for rep, lab in self.reps(case):
                _, curves, _ = self.draw(e, self.with_literature(H + X, V["zero_density_energy_plot"]), case, rep, lab)
                self.follow(e, self.labelled(e, curves, "Trivial", lab), trivial, lab, "trivial", near, 1e-7, 0.5, 0.999)
                self.follow(e, self.labelled(e, curves, "Literature", lab), lit, lab, "literature", near, 1e-7, 0.5, 0.999)
                self.follow(e, self.labelled(e, curves, "Lindelof", lab), lambda x: 0 if x > .75 else 8 - 4 * float(x), lab, "lindelof", near, 1e-7, 0.5, 0.999)
                xs, ys, _ = self.labelled(e, curves, "Best", lab)
                for x, y in zip(map(float, xs), map(float, ys)):
                    if near(x):
                        continue
                    u = lit(x)
                    w = min(u, energy_table(x))
                    if y > u * (1 + 1e-7) or y < w * (1 - 1e-7):
                        e.fail("curve-value", "%s: the best energy estimate is drawn at %s for %s; the literature gives %s, the best published %s" % (
                            lab, y, x, u, w))
        finally:
            V["literature"] = LITERATURE


def eval_num(t):
    try:
        return F(t)
    except ValueError:
        return None


def steps(lim, n):
    a, b = float(lim[0]), float(lim[1])
    return [a + (b - a) * i / (n - 1) for i in range(n)]


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])


def fmtp(p):
    return "(" + ", ".join("%.12g" % float(v) for v in p) + ")"

PX = '''from fractions import Fraction as F
import contextlib, io, sys
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
C = []
plt.plot = lambda x, y, *a, **k: C.append((list(x), list(y), k.get("label")))
for n in 'show figure legend xlabel ylabel title grid xlim ylim'.split():
    setattr(plt, n, lambda *a, **k: None)
from polytope import Polytope
from region import Region
from functions import Interval, Affine, Affine2, Piecewise, RationalFunction as RF
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
import bound_beta as BB, zero_density_estimate as ZD
def drawn(f):
    C.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        f()
    return list(C)
'''
FIG = PX + '''import importlib
def stop(*a): raise SystemExit
old, ZD.bourgain_ep_to_zd = ZD.bourgain_ep_to_zd, stop
import builtins, os
path = os.path.join(os.path.dirname(ZD.__file__), "visualizations.py")
V = {"__name__": "visualizations"}
try:
    exec(compile(open(path).read(), path, "exec"), V)
except SystemExit:
    pass
'''
bug("V01-region-columns", "V01",
    [("region.py", '''                if self.contains((x, y)):
                    xs.append(x)
                    ys.append(y)
        
''', '''                inside = self.contains((x, y))
                if not inside and len(xs) > 0 and xs[-1] == x:
                    break # past the top of this column
                if inside:
                    xs.append(x)
                    ys.append(y)
        
''')],
    PX + '''r = Region.union([Region.from_polytope(Polytope.rect((F(0), F(1)), (F(0), F(1)))), Region.from_polytope(Polytope.rect((F(0), F(1)), (F(2), F(3))))])
c = drawn(lambda: r.plot2d((0, 1), (0, 3), resolution=13))
assert any(y > 2 for y in c[0][1])
''', "a region with a gap above a point of it", "whatever lies above the gap is not drawn")
bug("V01-pw-series", "V01",
    [("functions.py", '''                for p in self.pieces:
                    if p.domain.contains([x, y]):
                        s = series[tuple(p.a)]
''', '''                for p in pieces.values():
                    if p.domain.contains([x, y]):
                        s = series[tuple(p.a)]
''')],
    PX + '''f = Piecewise([Affine2([F(1), F(0), F(1)], Polytope.rect((F(0), F(1)), (F(0), F(1)))), Affine2([F(0), F(1), F(1)], Polytope.rect((F(1), F(2)), (F(0), F(1)))),
               Affine2([F(1), F(0), F(1)], Polytope.rect((F(2), F(3)), (F(0), F(1))))])
c = drawn(lambda: f.plot_domain((0, 3), (0, 1), resolution=12))
assert any(x < 1 for q in c for x in q[0]) and any(x > 2 for q in c for x in q[0])
''', "two pieces with the same function on separate domains", "only one of the domains is drawn")
bug("V01-beta-merge", "V01",
    [("bound_beta.py", '''    for h in hypotheses:
        p = h.data.bound
        plt.plot(
            (p.domain.x0, p.domain.x1),
            (p.at(p.domain.x0, True), p.at(p.domain.x1, True)),
''', '''    segments = []
    for h in hypotheses:
        p = h.data.bound
        # draw pieces of the same line in one stroke
        if len(segments) > 0 and (segments[-1][0].m, segments[-1][0].c) == (p.m, p.c):
            segments[-1] = (p, min(segments[-1][1], p.domain.x0), max(segments[-1][2], p.domain.x1))
        else:
            segments.append((p, p.domain.x0, p.domain.x1))
    for (p, x0, x1) in segments:
        plt.plot(
            (x0, x1),
            (p.at(x0, True), p.at(x1, True)),
''')],
    PX + '''hs = [BB.derived_bound_beta(Affine(F(1), F(0), Interval(a, b)), "p", set()) for a, b in ((F(0), F(1, 10)), (F(3, 10), F(1, 2)))]
c = drawn(lambda: BB.display_beta_bounds(hs))
assert not any(x0 < F(1, 5) < x1 for (x0, x1), _, _ in c), c
''', "consecutive bounds on one line that are not adjacent", "a bound is drawn where none is known")
bug("V01-best-break", "V01",
    [("zero_density_estimate.py", '''            for h in hs:
                if h.data.interval.contains(sigma):
                    q = h.data.at(sigma)
''', '''            for h in sorted(hs, key=lambda h: h.data.interval.x1, reverse=True):
                if h.data.interval.x1 <= sigma:
                    break # no later estimate reaches sigma
                if h.data.interval.contains(sigma):
                    q = h.data.at(sigma)
''')],
    PX + '''R = Reference.make("A", 2000)
mk = lambda e, a, b: Hypothesis(e, "Zero density estimate", ZD.Zero_Density_Estimate(e, Interval(a, b, True, True)), "p", R)
hs = Hypothesis_Set([mk("3/(2 - x)", F(1, 2), F(3, 4)), mk("4", F(1, 2), F(1))])
c = drawn(lambda: ZD.best_zero_density_estimate(hs, verbose=True))
lit = [q for q in c if "Literature" in q[2]][0]
v = dict(zip(lit[0], lit[1]))
assert abs(float(v[0.75]) - 2.4) < 1e-9, v[0.75]
''', "an estimate whose closed range ends at an abscissa of the curve", "the literature curve leaves it out there")
bug("V01-prove-gap", "V01",
    [("derived.py", '''            else:
                ys.append(None)
        plt.plot''', '''            else:
                # no gaps inside the curve
                ys.append(ys[-1] if len(ys) > 0 else None)
        plt.plot''')],
    PX + '''import derived as D
iv = Interval(F(1, 2), F(3, 4))
c = drawn(lambda: D.prove_zero_density([], False, iv, "x", tau0=Affine(-1, 2, iv), plot=True, method=2))
for x, y in zip(c[0][0], c[0][1]):
    assert (y is None) == (x >= 0.75), (x, y)
''', "an estimate proved on a range that ends before 1", "the curve goes on at its last value where nothing is proved")
bug("V01-vdc-terms", "V01",
    [("visualizations.py", '''    bound = 1
    for k in range(2, 30):
        bound = min(bound, van_der_corput(k, alpha))
''', '''    bound = alpha
    for k in range(2, 30):
        if k * alpha <= 2: # the k-th bound is of use near alpha = 1/k only
            bound = min(bound, van_der_corput(k, alpha))
''')],
    FIG + '''f = V["optimized_van_der_corput"]
for i in range(500):
    a = i / 499 * 2
    assert f(a) == min([1] + [V["van_der_corput"](k, a) for k in range(2, 30)]), a
''', "an alpha beyond 1", "the optimized bound drawn exceeds the trivial bound there")
bug("V01-energy-trivial", "V01",
    [("visualizations.py", '''        best_bound.append(min(best, lit, trivial))
''', '''        best_bound.append(min(best, lit_bound[-1] if sigma < 3/4 else lit))
''')],
    FIG + '''R = Reference.make("A", 2000)
import zero_density_energy_estimate as ZE
V["literature"] = Hypothesis_Set([
    Hypothesis("a", "Zero density energy estimate", ZE.Zero_Density_Energy_Estimate("1000", Interval(F(1, 2), F(1), True, True)), "p", R),
    Hypothesis("b", "Zero density estimate", ZD.Zero_Density_Estimate("2", Interval(F(1, 2), F(1), True, True)), "p", R)])
c = drawn(V["zero_density_energy_plot"])
for q in c:
    if "Best" in q[2]:
        assert max(float(y) for y in q[1]) < 6.01, max(q[1])
''', "a zero density estimate better than the energy estimates to the right of 3/4", "the best curve ignores it there")
bug("V01-zd-bourgain", "V01",
    [("visualizations.py", '''    hs = Hypothesis_Set()
    hs.add_hypotheses(literature)
    
    # Add the new''', '''    hs = literature
    
    # Add the new''')],
    FIG + '''ZD.bourgain_ep_to_zd = lambda: []
R = Reference.make("A", 2000)
V["literature"] = Hypothesis_Set([Hypothesis("b", "Zero density estimate", ZD.Zero_Density_Estimate("4", Interval(F(1, 2), F(1), True, True)), "p", R)])
c = drawn(V["zero_density_plot"])
lit = [q for q in c if "Literature" in q[2]][0]
assert all(abs(float(y) - 4) < 1e-9 for y in lit[1]), min(lit[1])
''', "the figure, where the literature is weaker than the new estimates", "new results are added to the literature, and its curve shows them")

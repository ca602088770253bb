P = '''from fractions import Fraction as F
from hypotheses import *
from reference import *
from functions import *
from polytope import Polytope
from region import Region
import large_values as lv
import zeta_large_values as zlv
import zero_density_estimate as zd
import zero_density_energy_estimate as ze
import additive_energy as ad
REF = Reference.make("A", 2000)
def LVE(bounds, name): return Hypothesis(name, "Large value estimate", lv.convert_bounds(bounds), "p", REF)
def ZLVE(bounds, name): return Hypothesis(name, "Zeta large value estimate", lv.convert_bounds(bounds), "p", REF)
def box(s0, s1, t0, t1, r=1000000): return Region.from_polytope(Polytope.rect((F(s0), F(s1)), (F(t0), F(t1)), (F(0), F(r))))
def halves(hs): return Region.from_union_of_halfplanes(hs, ad.Large_Value_Energy_Region.default_constraints())
def LVER(hs, name, typ="Large value energy region"): return Hypothesis(name, typ, ad.Large_Value_Energy_Region(halves(hs)), "p", REF)
'''
LVR = '''    # Use LVR transformations and use them to expand the set of LVRs
    tfs = hypotheses.list_hypotheses(hypothesis_type="Large value estimate transform")
    transformed_lvs = []
    for tf in tfs:
        transformed_lvs.extend(tf.data.transform(h) for h in hyps)
    hyps.extend(transformed_lvs)

    if zeta:
        hyps.extend(hypotheses.list_hypotheses("Zeta large value estimate"))
'''
bug("L01-zeta-power", "L01",
    [("zero_density_estimate.py", LVR, LVR.replace('''
    if zeta:
        hyps.extend(hypotheses.list_hypotheses("Zeta large value estimate"))
''', '').replace('    # Use LVR', '''    if zeta:
        hyps.extend(hypotheses.list_hypotheses("Zeta large value estimate"))

    # Use LVR'''))],
    P + '''s = Hypothesis_Set([ZLVE([[1, -1, 0]], "z"), lv.raise_to_power_hypothesis(F(1, 2))])
r = zd.compute_large_value_region(s, box(F(1,2), 1, 2, 4), zeta=True)
assert r.data.region.contains([F(3,4), F(3), F(1,5)])
''', "a zeta query with a zeta estimate and a power transform both present", "powers are applied to zeta large value estimates, which do not allow them")

bug("L01-name-dedupe", "L01",
    [("zero_density_estimate.py", "        hsh = str(r)\n", "        hsh = (hyps[i].name, hyps[i].proof[:40])\n")],
    P + '''a = LVE([[2, -2, 0], [1, -2, 1]], "A long enough name for a large value estimate")
s = Hypothesis_Set([a, lv.raise_to_power_hypothesis(2), lv.raise_to_power_hypothesis(3)])
r = zd.compute_large_value_region(s, box(F(1,2), 1, 2, 4))
b = lambda s_, t, k: k * max(2 - 2 * s_, 1 - 2 * s_ + t / k)
for i in range(1, 20):
    for j in range(1, 20):
        for l in range(1, 20):
            x = [F(1,2) + F(i, 41), 2 + F(2*j, 43), F(l, 47)]
            want = x[2] < min(b(x[0], x[1], k) for k in (1, 2, 3))
            assert r.data.region.contains(x) == want, x
''', "estimates that share a name (two powers of one estimate)", "duplicates are recognised by name, dropping different estimates")

bug("L02-power-int", "L02",
    [("large_values.py", "    # Convert into fraction\n    k = frac(k)\n", "    # The power is a natural number\n    k = int(k)\n")],
    P + '''a = LVE([[2, -2, 0]], "a")
t = lv.raise_to_power_hypothesis(F(3, 2)).data.transform(a)
assert t.data.region.contains([F(3,4), F(3), F(7,10)])
''', "a power that is no integer", "raising to a fractional power uses the integer part")

bug("L02-beta-order", "L02",
    [("zeta_large_values.py", "            if alpha0 == 0\n            else", "            if alpha0 == 0 or alpha1 == frac(1, 2)\n            else")],
    P + '''import bound_beta as bb
h = Hypothesis("b", "Upper bound on beta", bb.Bound_beta(Affine(F(1,4), F(0), Interval(F(2,5), F(1,2), True, True))), "p", REF)
hs = zlv.beta_to_zlv(Hypothesis_Set([h]))
x = [F(4,5), F(9,4), F(1)]
assert not all(q.data.region.contains(x) for q in hs)
x = [F(4,5), F(3), F(1)]
assert all(q.data.region.contains(x) for q in hs)
''', "a bound on beta on a range that ends at 1/2", "bounds on beta near 1/2 are used beyond their range of tau")

bug("L02-mu-tau", "L02",
    [("zeta_large_values.py", '''                [-sigma0, 1, -mu0, 0],  # \\sigma >= sigma0 + \\tau * mu0
            ]),
            # Trivial bound elsewhere -----------------------------------------
            Polytope([
                [0, 0, 1, -1],          # \\rho <= \\tau
                [0, 0, 0, 1],           # \\rho >= 0
                [1, -1, 0, 0],          # \\sigma <= 1
                [-frac(1, 2), 1, 0, 0], # \\sigma > 1/2
                [-2, 0, 1, 0],          # \\tau >= 2
''', '''                [-sigma0, 1, -mu0, 0],  # \\sigma >= sigma0 + \\tau * mu0
            ]),
            # Trivial bound elsewhere -----------------------------------------
            Polytope([
                [0, 0, 1, -1],          # \\rho <= \\tau
                [0, 0, 0, 1],           # \\rho >= 0
                [1, -1, 0, 0],          # \\sigma <= 1
                [-max(frac(1, 2), sigma0), 1, 0, 0], # \\sigma > sigma0
                [-2, 0, 1, 0],          # \\tau >= 2
''')],
    P + '''import bound_mu as bm
h = Hypothesis("m", "Upper bound on mu", bm.Bound_mu(F(3,4), F(1,10)), "p", REF)
(q,) = zlv.mu_to_zlv(Hypothesis_Set([h]))
assert q.data.region.contains([F(3,5), F(3), F(1)])
''', "a bound on mu right of 1/2 and sigma left of it", "nothing is allowed left of the point of a bound on mu")

bug("D01-visited", "D01",
    [("zero_density_estimate.py", "            if v1 + v2 in visited or v2 + v1 in visited: continue\n            visited.add(v1 + v2)\n",
      "            if (v1[:2], v2[:2]) in visited or (v2[:2], v1[:2]) in visited: continue\n            visited.add((v1[:2], v2[:2]))\n")],
    P + '''lo = Polytope.rect((F(1,2), F(1)), (F(1), F(2)), (F(0), F(1)))
hi = Polytope.rect((F(1,2), F(1)), (F(1), F(2)), (F(1), F(3)))
for ps in ([lo, hi], [hi, lo]):
    r = zd.compute_sup_rho_on_tau(ps, Interval(F(1,2), F(1)))
    assert max(q[0].at(F(3,4)) for q in r if q[1].contains(F(3,4))) == 3
''', "two edges above each other", "edges with the same sigma and tau are taken for the same edge")

bug("D01-zeta-half", "D01",
    [("zero_density_estimate.py", '''            Polytope.rect(sigma_lim, (frac(2), tau0), rho_lim)
        ),
        zeta = True
''', '''            Polytope.rect(sigma_lim, (frac(2), max(frac(2), tau0 - 1)), rho_lim)
        ),
        zeta = True
''')],
    P + '''s = Hypothesis_Set([LVE([[0, 0, 0]], "a").__class__("a", "Large value estimate", lv.Large_Value_Estimate(Region.disjoint_union(
    lv.convert_bounds([[1, -1, 0]]).region.child)), "p", REF)])
from region import Region_Type
lo = Region.from_union_of_halfplanes([[0, 0, 0, -1]], [[-F(1,2),1,0,0],[1,-1,0,0],[0,0,1,0],[F(5,2),0,-1,0],[0,0,0,1],[F(1000000),0,0,-1]])
mid = Region.from_union_of_halfplanes([[1, 0, 0, -1]], [[-F(1,2),1,0,0],[1,-1,0,0],[-F(5,2),0,1,0],[F(3),0,-1,0],[0,0,0,1],[F(1000000),0,0,-1]])
hi = Region.from_union_of_halfplanes([[F(1,10), 0, 0, -1]], [[-F(1,2),1,0,0],[1,-1,0,0],[-F(3),0,1,0],[F(1000000),0,-1,0],[0,0,0,1],[F(1000000),0,0,-1]])
h = Hypothesis("h", "Large value estimate", lv.Large_Value_Estimate(Region.disjoint_union(lo.child + mid.child + hi.child)), "p", REF)
r = zd.lv_zlv_to_zd(Hypothesis_Set([h]), Interval(F(1,2), F(1)), F(3))
v = max(q.data.at(F(3,4)) for q in r if q.data.interval.contains(F(3,4)))
assert v >= F(4, 3), v
''', "large values possible only for tau between tau0 - 1 and tau0", "the zeta part of the range of tau is cut short")

bug("Z01-merge-ref", "Z01",
    [("functions.py", "                    if not (fi == fj and right == intj.x0 and (not track_dependencies or refi == refj)):\n",
      "                    if not (fi == fj and right == intj.x0 and (not track_dependencies or refi == refj or min(refi, refj) >= 0)):\n")],
    P + '''def Z(e, a, b, n): return Hypothesis(n, "Zero density estimate", zd.Zero_Density_Estimate(e, Interval(F(a), F(b))), "proof " + n, REF)
hs = [Z("3/(2-x)", F(1,2), F(3,4), "first"), Z("3/(2-x)", F(3,4), F(1), "second")]
for h in zd.best_zero_density_estimate(Hypothesis_Set(hs)):
    for x in (F(5,8), F(7,8)):
        if h.data.interval.contains(x):
            assert h.name == ("first" if x < F(3,4) else "second"), h
''', "the same function known on neighbouring ranges from two sources", "a piece is attributed to a source that does not hold on all of it")

bug("Z01-lazy-range", "Z01",
    [("zero_density_estimate.py", '''        if not self.interval.contains(sigma):
            raise ValueError(f'Sigma value {sigma} is out of bounds {self.interval}')

        self._ensure_bound_is_computed()
        return self.bound.at(sigma)
''', '''        if self.bound is None:
            if not self.interval.contains(sigma):
                raise ValueError(f'Sigma value {sigma} is out of bounds {self.interval}')
            self._ensure_bound_is_computed()
        return self.bound.at(sigma)
''')],
    P + '''z = zd.Zero_Density_Estimate("3/(2-x)", Interval(F(3,4), F(1)))
z.at(F(4,5))
try:
    z.at(F(3,5))
    raise SystemExit(1)
except ValueError: pass
''', "an evaluation outside the range after an evaluation inside it", "the range of a parsed estimate is no longer checked")

bug("Z01-half-parsed", "Z01",
    [("functions.py", '''        s = sympy.parsing.sympy_parser.parse_expr(expr)
        (num, den) = sympy.fraction(s)
        r = RationalFunction([])
''', '''        r = RationalFunction._parsed.get(expr)
        if r is not None: return r
        r = RationalFunction._parsed[expr] = RationalFunction([])
        s = sympy.parsing.sympy_parser.parse_expr(expr)
        (num, den) = sympy.fraction(s)
'''), ("functions.py", '''    # Static variable to be re-used
    x = sympy.symbols("x")

    # Create a rational function''', '''    # Static variable to be re-used
    x = sympy.symbols("x")
    _parsed = {}

    # Create a rational function''')],
    P + '''import sympy.parsing.sympy_parser as sp
real = sp.parse_expr
def bad(*a, **k): raise MemoryError()
z = zd.Zero_Density_Estimate("3/(2-x)", Interval(F(1,2), F(1)))
sp.parse_expr = bad
try: z.at(F(4,5))
except MemoryError: pass
sp.parse_expr = real
assert z.at(F(4,5)) == F(5, 2), z.at(F(4,5))
''', "parsing fails or is interrupted once, or two callers parse the same text at once, and the estimate is used again",
    "an expression whose parsing failed is cached as zero")

LE = '''    transformed = []
    for tf in tfs: transformed.extend(tf.data.transform(lver) for lver in lvers)
    lvers.extend(transformed)

    if zeta:
        # A large value energy region is also a zeta large value energy region
        # A zeta large value energy region has no raise to power hypothesis
        lvers.extend(hypotheses.list_hypotheses(hypothesis_type="Zeta large value energy region"))
'''
bug("A01-zeta-power", "A01",
    [("additive_energy.py", LE, '''    if zeta:
        # A large value energy region is also a zeta large value energy region
        lvers.extend(hypotheses.list_hypotheses(hypothesis_type="Zeta large value energy region"))

    transformed = []
    for tf in tfs: transformed.extend(tf.data.transform(lver) for lver in lvers)
    lvers.extend(transformed)
''')],
    P + '''s = Hypothesis_Set([LVER([[1, -1, 0, 0, -1, 0]], "z", "Zeta large value energy region"), ad.get_raise_to_power_hypothesis(F(1, 2))])
r = ad.compute_best_lver(s, Region.from_polytope(Polytope.rect((F(1,2), F(1)), (F(2), F(4)))), zeta=True)
assert r.data.region.contains([F(3,4), F(3), F(1,10), F(1,5), F(1)])
''', "a zeta query with a zeta energy region and a power transform", "powers are applied to zeta energy regions")

bug("A01-shared-box", "A01",
    [("additive_energy.py", '''        limits = [
            (frac(1,2), frac(1)),
''', '''        if Large_Value_Energy_Region._box is not None:
            return list(Large_Value_Energy_Region._box)
        limits = [
            (frac(1,2), frac(1)),
'''), ("additive_energy.py", "        dim = len(limits)\n        bounds = []\n", "        dim = len(limits)\n        bounds = Large_Value_Energy_Region._box = []\n"),
     ("additive_energy.py", "    # Construct a valid large value energy region represented", "    _box = None\n\n    # Construct a valid large value energy region represented")],
    P + '''import additive_energy
additive_energy.Large_Value_Energy_Region._box = None
a = ad.Large_Value_Energy_Region.default_constraints()
a.append([1, 0, -1, 0, 0, 0])
b = ad.Large_Value_Energy_Region.default_constraints()
assert len(b) == 10, b
''', "the first caller of default_constraints adds its own constraints to the list it is given", "default limits shared between regions pick up a caller's constraints")

bug("A01-project-raw", "A01",
    [("additive_energy.py", '''    region = hypothesis.data.region.as_disjoint_union()

    # Project onto the dimensions (sigma, tau, rho*)
''', '''    region = hypothesis.data.region
    if region.region_type not in (Region_Type.UNION, Region_Type.DISJOINT_UNION, Region_Type.INTERSECT):
        region = region.as_disjoint_union()

    # Project onto the dimensions (sigma, tau, rho*)
''')],
    P + '''a = halves([[0, 0, 0, 1, -1, 0]])
b = halves([[2, -2, 0, -1, 0, 0]])
h = Hypothesis("h", "Large value energy region", ad.Large_Value_Energy_Region(Region.intersect([a, b])), "p", REF)
e = ad.lver_to_energy(h)
assert not e.data.region.contains([F(3,4), F(3), F(1)])
''', "an energy region that is an intersection of regions which constrain different exponents", "the projection of an intersection is taken as the intersection of projections")


bug("A02-visited", "A02",
    [("zero_density_energy_estimate.py", "            visited.add(v1 + v2)\n\n            (sigma1", "            visited.update((v1 + v2, v1 + v2[:1] + v1[1:]))\n\n            (sigma1")],
    P + '''a = Region.from_polytope(Polytope([[-F(1,2),1,0,0],[1,-1,0,0],[-1,0,1,0],[2,0,-1,0],[0,0,0,1],[2,-1,0,-1]]))
b = Region.from_polytope(Polytope([[-F(1,2),1,0,0],[1,-1,0,0],[-1,0,1,0],[2,0,-1,0],[0,0,0,1],[F(3,2),0,0,-1]]))
for rs in ([a, b], [b, a]):
    r = ze.compute_sup_LV_on_tau(Region.disjoint_union(rs), Interval(F(1,2), F(1)))
    for x in (F(3,5), F(7,8)):
        v = max(q[0].at(x) for q in r if q[1].contains(x))
        assert v == F(3,2), (x, v)
''', "an edge of constant tau and rho that starts where a slanted one does", "edges that start alike are taken for the same edge")

bug("A02-alias-deps", "A02",
    [("zero_density_estimate.py", "        deps.update(list(LVER.dependencies))\n", "        deps = LVER.dependencies\n")],
    P + '''a = LVER([[1, -1, 0, -1, 0, 0]], "a")
z = LVER([[2, -2, 0, -1, 0, 0]], "z", "Zeta large value energy region")
s = Hypothesis_Set([a, z])
l = ad.compute_best_lver(s, Region.from_polytope(Polytope.rect((F(1,2), F(1)), (F(3), F(6)))))
y = ad.compute_best_lver(s, Region.from_polytope(Polytope.rect((F(1,2), F(1)), (F(2), F(3)))), zeta=True)
zd.lver_to_zd(l, y, Interval(F(1,2), F(1)))
assert l.dependencies == {a}, l.dependencies
''', "both regions given, with different dependencies", "computing a zero density estimate adds dependencies to the energy region it is computed from")

bug("A02-trivial-lazy", "A02",
    [("zero_density_energy_estimate.py", '''        return f"A*(x) \\leq {self.expr} on {self.interval}"

    def _ensure_bound_is_computed(self):
        if self.bound is None:
            self.bound = RF.parse(self.expr)
''', '''        return f"A*(x) \\leq {self.expr} on {self.interval}"

    def _ensure_bound_is_computed(self):
        if self.bound is None:
            self.bound = RF.parse(self.expr.replace("(1 - x)", "(1-x)").replace("3 * (3", "9 * (1"))
''')],
    P + '''z = Hypothesis("z", "Zero density estimate", zd.Zero_Density_Estimate("3 + 2*x", Interval(F(1,2), F(1))), "p", REF)
s = Hypothesis_Set([z])
ze.add_trivial_zero_density_energy_estimates(s)
vs = [h.data.at(F(3,4)) for h in s.list_hypotheses("Zero density energy estimate")]
assert sorted(vs) == [12, F(27, 2)], vs
''', "a density estimate whose expression starts with 3", "a rewriting of the expression before parsing changes its value")

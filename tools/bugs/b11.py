PRE = "import sys\nfrom fractions import Fraction as F\n"
bug("A02-zero-edges", "A02",
    [("zero_density_energy_estimate.py", "            # Skip edges with empty projection onto the sigma domain\n            if sigma1 == sigma2: continue\n",
      "            # Skip edges with empty projection onto the sigma domain, or on which nothing is counted\n            if sigma1 == sigma2 or rho1 + rho2 == 0: continue\n")],
    PRE + '''import zero_density_energy_estimate as ZE
from region import Region
from polytope import Polytope
from functions import Interval
r = Region.union([Region.from_polytope(Polytope([[-F(1,2),1,0,0],[F(3,4),-1,0,0],[-1,0,1,0],[2,0,-1,0],[0,0,0,1],[1,0,0,-1]])),
                  Region.from_polytope(Polytope([[-F(3,4),1,0,0],[1,-1,0,0],[-1,0,1,0],[2,0,-1,0],[0,0,0,1],[0,0,0,-1]]))])
s = ZE.compute_sup_LV_on_tau(r, Interval(F(1,2), F(1)))
for x in (F(5, 8), F(7, 8)):
    v = [f[0].at(x) for f in s if f[1].contains(x)]
    assert len(v) == 1 and v[0] == (1 if x < F(3, 4) else 0), (x, v)
''', "a range of sigma in which the energy region allows rho = 0 only", "nothing, or a wrong value, is reported for that range")
bug("E01-known-tangent", "E01",
    [("exponent_pair.py", "        else:\n            h = known_eps[key]\n", "        else:\n            # Known, and so is its transform\n            continue\n")],
    PRE + '''import literature as L, exponent_pair as EP, bound_beta as BB
from hypotheses import Hypothesis_Set
from reference import Reference
from functions import Affine, Interval
B = L.literature.find_hypothesis(keywords="van der Corput B transform")
R = Reference.make("N", 1999)
h = EP.literature_exp_pair(F(1, 14), F(11, 14), R)
b = [BB.classical_bound_beta(Affine(F(11,14) - F(1,14), F(1,14), Interval(0, F(1, 2), True, True)))]
S = Hypothesis_Set(b + [h, B])
got = {(p.data.k, p.data.l) for p in EP.beta_bounds_to_exponent_pairs(S)}
t = B.data.transform(h)
assert (t.data.k, t.data.l) in got, got
''', "a store that already holds the pair of a tangent line but not its B transform", "the B transform of a known pair is missing")
bug("H01-copy-data", "H01",
    [("hypotheses.py", "        else:\n            self.hypotheses.update(new_hypotheses)\n", "        elif len(self.hypotheses) > 0 or not isinstance(new_hypotheses, set):\n            self.hypotheses.update(new_hypotheses)\n        else:\n            self.hypotheses = new_hypotheses\n")],
    PRE + '''import exponent_pair as EP
from hypotheses import Hypothesis_Set
from reference import Reference
R = Reference.make("N", 1999)
a, b = (EP.literature_exp_pair(F(1, n), F(1) - F(1, n), R) for n in (7, 9))
s = {a}
S = Hypothesis_Set(s)
S.add_hypothesis(b)
assert s == {a}
''', "a store made from a set, then grown", "the caller's set is changed too")
bug("H01-keyword-order", "H01",
    [("hypotheses.py", '                        k.strip() in hypothesis.name for k in keywords.split(",")\n                    ):\n', '                        k in hypothesis.name for k in keywords.split(",")\n                    ):\n')],
    PRE + '''import exponent_pair as EP
from hypotheses import Hypothesis_Set, Hypothesis
from reference import Reference
h = Hypothesis("Some bound (1999)", "Kind", None, "p", Reference.make("N", 1999))
assert Hypothesis_Set([h]).find_hypothesis(keywords="(1999), Some") is h
''', "several keywords, the later one standing first in the name", "the hypothesis is not found")
bug("R01-brace-depth", "R01",
    [("reference.py", "            if c == close_brace:\n                l -= 1\n            if l == level", "            if c == close_brace:\n                l = max(l - 1, 0) if l < 3 else 1\n            if l == level")],
    PRE + '''import tempfile, os
from reference import Reference_Manager
d = tempfile.mkdtemp()
f = os.path.join(d, "a.bib")
open(f, "w").write("@article{a,\\n author = {A. Bc},\\n title = {An {old {and {deep}, one}, x} = y},\\n year = {1976},\\n}\\n")
m = Reference_Manager(f)
m.load()
e = m.get("a").entries
os.remove(f); os.rmdir(d)
assert e["title"] == "An {old {and {deep}, one}, x} = y", e
''', "a field with three levels of braces and a comma after the innermost", "the field is cut at that comma")
bug("F02-poly-tail", "F02",
    [("polynomial.py", "            c = tuple(p[i] - q[i] for i in range(m)) + tuple(-a for a in q[m:n])\n", "            c = tuple(p[i] - q[i] for i in range(m)) + (tuple(-a for a in q[m:n]) if m > 0 else q[m:n])\n")],
    PRE + '''from polynomial import Polynomial
d = Polynomial(()) - Polynomial((F(1), F(2)))
assert d.coefficients == (F(-1), F(-2)), d
''', "the zero polynomial minus another", "the difference has the wrong sign")
bug("A01-zeta-tf", "A01",
    [("additive_energy.py", "    if zeta:\n        # A large value energy region is also a zeta large value energy region\n        # A zeta large value energy region has no raise to power hypothesis\n        lvers.extend(hypotheses.list_hypotheses(hypothesis_type=\"Zeta large value energy region\"))\n    \n    # Compute intersection",
      "    if zeta:\n        # A large value energy region is also a zeta large value energy region\n        zlvers = hypotheses.list_hypotheses(hypothesis_type=\"Zeta large value energy region\")\n        lvers = zlvers or lvers\n        lvers.extend(h for h in hypotheses.list_hypotheses(hypothesis_type=\"Large value energy region\") if h not in lvers)\n    \n    # Compute intersection")],
    PRE + '''from hypotheses import Hypothesis_Set
import additive_energy as A
from region import Region
from polytope import Polytope
from reference import Reference
def reg(row): return Region.from_polytope(Polytope([row] + A.Large_Value_Energy_Region.default_constraints()))
R = Reference.make("N", 1999)
S = Hypothesis_Set([A.literature_large_value_energy_region(reg([1, 0, 0, -1, 0, 0]), R),
                    A.literature_zeta_large_value_energy_region(reg([2, 0, 0, 0, -1, 0]), R), A.get_raise_to_power_hypothesis(2)])
S2 = Hypothesis_Set([A.literature_large_value_energy_region(reg([1, 0, -F(1, 2), -1, 0, 0]), R),
                    A.literature_zeta_large_value_energy_region(reg([2, 0, 0, 0, -1, 0]), R), A.get_raise_to_power_hypothesis(2)])
d = Region.from_polytope(Polytope([[-F(1, 2), 1, 0], [1, -1, 0], [-2, 0, 1], [3, 0, -1]]))
h = A.compute_best_lver(S2, d, zeta=True)
# the second power of rho <= 1 - tau / 2 is rho <= 2 - tau / 2
assert len(h.dependencies) == 3, h.dependencies
''', "zeta regions together with a transform of the other regions", "the transformed regions are left out")
bug("L02-mu-reach", "L02",
    [("zeta_large_values.py", "                [-sigma0, 1, -mu0, 0],  # \\sigma >= sigma0 + \\tau * mu0\n", "                [-max(sigma0, frac(1, 2)), 1, -mu0, 0],  # \\sigma >= sigma0 + \\tau * mu0\n")],
    PRE + '''from hypotheses import Hypothesis_Set
import bound_mu as M, zeta_large_values as Z
from reference import Reference
S = Hypothesis_Set([M.literature_bound_mu(F(1, 4), F(3, 10), Reference.make("N", 1999))])
r = Z.mu_to_zlv(S)[0].data.region
assert r.contains([F(9, 10), F(21, 10), F(0)]) and not r.contains([F(9, 10), F(21, 10), F(2)])
assert r.contains([F(1), F(49, 20), F(0)])
''', "a bound on mu to the left of 1/2", "a strip of (sigma, tau) belongs to neither piece")
bug("Z01-derived-name", "Z01",
    [("zero_density_energy_estimate.py", "    minimum = RF.min([(h.data.bound, h.data.interval) for h in hs], Interval(frac(1,2), 1))\n",
      "    # Every estimate holds for larger sigma as well\n    minimum = RF.min([(h.data.bound, Interval(h.data.interval.x0, max(h.data.interval.x1, min([g.data.interval.x0 for g in hs if g.data.interval.x0 >= h.data.interval.x1], default=1)))) for h in hs], Interval(frac(1,2), 1))\n")],
    PRE + '''import zero_density_energy_estimate as ZE
from hypotheses import Hypothesis_Set
from functions import Interval
from reference import Reference
R = Reference.make("N", 1999)
S = Hypothesis_Set([])
def est(e, a, b): S.add_hypothesis(ZE.literature_zero_density_energy_estimate(e, Interval(a, b), R))
est("3/(1 - x + 1)", F(1, 2), F(3, 5)); est("5", F(4, 5), F(1)); est("7", F(1, 2), F(1))
b = ZE.compute_best_energy_bound(S)
x = F(7, 10)
v = [h.data.at(x) for h in b if h.data.interval.contains(x)]
assert v == [7], v
''', "a gap between the ranges of two estimates", "an estimate is used beyond its range")
bug("D01-second-call", "D01",
    [("zero_density_estimate.py", "    hypotheses.add_hypotheses(zlv.compute_large_value_estimate(hypotheses))\n    zlvr = compute_large_value_region(\n        hypotheses,\n        Region.from_polytope(\n            Polytope([\n                [-2, 0, 1, 0], # tau >= 2\n                [frac(4,3)",
      "    if len(hypotheses.list_hypotheses(\"Zeta large value estimate\")) == 0:\n        hypotheses.add_hypotheses(zlv.compute_large_value_estimate(hypotheses))\n    zlvr = compute_large_value_region(\n        hypotheses,\n        Region.from_polytope(\n            Polytope([\n                [-2, 0, 1, 0], # tau >= 2\n                [frac(4,3)")],
    PRE + '''import literature as L, zero_density_estimate as ZD, bound_beta as BB, zeta_large_values as ZLV, large_values as LV
from hypotheses import Hypothesis_Set
from functions import Interval, Affine
import contextlib, io
def run(t):
    S = Hypothesis_Set([LV.large_value_estimate_L2, BB.classical_bound_beta(Affine(F(1, 2), F(1, 6), Interval(0, F(1, 2), True, True)))])
    if t: S.add_hypothesis(ZLV.get_trivial_zlv())
    with contextlib.redirect_stdout(io.StringIO()):
        return ZD.lv_zlv_to_zd2(S, Interval(F(1, 2), F(1)), Affine(F(0), F(9, 5), Interval(F(1, 2), F(1))))
a, b = run(False), run(True)
for i in range(1, 40):
    x = F(1, 2) + F(i, 83)
    va = min(float(h.data.at(x)) for h in a if h.data.interval.contains(x))
    vb = min(float(h.data.at(x)) for h in b if h.data.interval.contains(x))
    assert va == vb, (x, va, vb)
''', "a store that already holds a zeta large value estimate", "bounds on beta are no longer used for the zeta range")
bug("T01-quotient-num", "T01",
    [("functions.py", '        if sum(1 for c in self._num_coeffs if c != 0) > 1: num = "(" + num + ")"\n', '        if self._num_coeffs[-1] != 0 and len(self._num_coeffs) > 1: num = "(" + num + ")"\n')],
    PRE + '''from functions import RationalFunction2 as R, Interval
s = str(R(([F(1), F(1), F(0)], [F(1), F(1)]), Interval(0, 1))).split(" on ")[0]
x = F(3)
num = s.rsplit("/", 1)[0].strip()
assert num.startswith("(") and num.endswith(")"), s
''', "a numerator of several terms without a constant", "the printed quotient divides the last term only")

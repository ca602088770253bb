PRE = "import sys\nfrom fractions import Fraction as F\n"
bug("E01-overwrite", "E01",
    [("exponent_pair.py", """                if key not in pairs:
                    pairs[key] = tp
""", """                pairs[key] = tp
""")],
    PRE + '''import literature as L
from hypotheses import Hypothesis_Set
import exponent_pair as EP
from reference import Reference
h = EP.literature_exp_pair(F(1, 7), F(5, 7), Reference.make("N", 1999))
B = L.literature.find_hypothesis(keywords="van der Corput B transform")
for prune in (False,):
    ps = EP.compute_exp_pairs(Hypothesis_Set([h, B]), search_depth=3, prune=prune)
    got = [p for p in ps if (p.data.k, p.data.l) == (F(1, 7), F(5, 7))]
    assert got == [h], [p.desc_with_proof() for p in got]
''', "a transform that leads back to a pair of the store, applied at depth two or more", "a stored pair is replaced by a longer proof of itself")
bug("L02-beta-one", "L02",
    [("zeta_large_values.py", "Constants.TAU_UPPER_LIMIT if alpha1 == 0 else max(frac(2, 1), 1 / alpha1)", "Constants.TAU_UPPER_LIMIT if alpha1 == 0 else 1 / alpha1")],
    PRE + '''from hypotheses import Hypothesis_Set
import bound_beta as B, zeta_large_values as Z
from functions import Affine, Interval
from reference import Reference
b = B.classical_bound_beta(Affine(F(1, 2), F(1, 6), Interval(0, 1, True, True)))
r = Z.beta_to_zlv(Hypothesis_Set([b]))[0].data.region
assert not r.contains([F(9, 10), F(3, 2), F(0)]) and r.contains([F(9, 10), F(3), F(0)])
''', "a single bound on beta that holds beyond alpha = 1/2", "the estimate is not restricted to tau >= 2")
bug("G02-sub-drop-empty", "G02",
    [("region.py", "        return Region(self.region_type, [c.substitute(values) for c in self.child])\n",
      """        children = [c.substitute(values) for c in self.child]
        # Pieces that do not meet the slice contribute nothing
        children = [c for c in children if c.region_type != Region_Type.POLYTOPE or not c.child.is_empty()]
        return Region(self.region_type, children)
""")],
    PRE + '''from region import Region
from polytope import Polytope
def box(a, b): return Region.from_polytope(Polytope([[-a, 1, 0], [b, -1, 0], [0, 0, 1], [1, 0, -1]]))
r = Region.intersect([box(0, 2), box(1, 2)])
assert not r.substitute({0: F(1, 2)}).contains([F(1, 2)])
''', "an intersection one of whose parts misses the slice", "the slice contains points that are not in the set")
bug("R01-year-slash", "R01",
    [("reference.py", 'return int(s.split("/")[0])', 'return int(s.split("/")[-1])')],
    PRE + '''import tempfile, os
from reference import Reference_Manager
d = tempfile.mkdtemp()
f = os.path.join(d, "a.bib")
open(f, "w").write("@article{a,\\n author = {A. Bc},\\n year = {1976/77},\\n}\\n")
m = Reference_Manager(f)
m.load()
y = m.get("a").year()
os.remove(f); os.rmdir(d)
assert y == 1976, y
''', "a year of two parts", "the year of the entry is wrong")
bug("A01-power-order", "A01",
    [("additive_energy.py", "    for tf in tfs: transformed.extend(tf.data.transform(lver) for lver in lvers)\n    lvers.extend(transformed)\n",
      "    for tf in tfs: transformed.extend(tf.data.transform(lver) for lver in lvers if not any(t.name == lver.name for t in transformed))\n    lvers.extend(transformed)\n")],
    PRE + '''from hypotheses import Hypothesis_Set, Hypothesis
import additive_energy as A
from region import Region
from polytope import Polytope
from reference import Reference
def h(row):
    r = Region.from_polytope(Polytope([row] + A.Large_Value_Energy_Region.default_constraints()))
    return A.derived_large_value_energy_region(A.Large_Value_Energy_Region(r), "p", {A.literature_large_value_energy_region(r, Reference.make("N", 1999))})
S = Hypothesis_Set([h([1, 0, 0, -1, 0, 0]), h([1, 0, 0, 0, -1, 0]), A.get_raise_to_power_hypothesis(2), A.get_raise_to_power_hypothesis(3)])
d = Region.from_polytope(Polytope([[-F(1, 2), 1, 0], [1, -1, 0], [-2, 0, 1], [3, 0, -1]]))
assert len(A.compute_best_lver(S, d).dependencies) == 6
''', "derived energy estimates, all named alike, and two powers", "some powers of an estimate are not used")
bug("N01-beta-only", "N01",
    [("prime_gap.py", "        print(interval, max(sup_alpha, sup_beta), alpha.simplify(), beta.simplify())", "        print(interval, sup_alpha if sup_alpha > 1 and sup_alpha < 2 else max(sup_alpha, sup_beta), alpha.simplify(), beta.simplify())")],
    PRE + '''import io, contextlib, warnings
warnings.simplefilter("ignore")
from hypotheses import Hypothesis_Set
import zero_density_estimate as Z, zero_density_energy_estimate as E, prime_gap as P
from functions import Interval
from reference import Reference
r = Reference.make("N", 1999)
S = Hypothesis_Set()
Z.add_zero_density(S, "2", Interval(F(1, 2), F(1)), r)
S.add_hypotheses([E.literature_zero_density_energy_estimate("11", Interval(F(1, 2), F(1)), r)])
o = io.StringIO()
with contextlib.redirect_stdout(o):
    P.compute_gap2(S)
rows = [l for l in o.getvalue().split("\\n") if l.startswith("[")]
worst = max(float(l.split()[1]) for l in rows)
assert worst >= 4 * .5 - 2 + (11 * .5 - 1) / 2 - 1e-9, rows
''', "an energy estimate for which the first expression lies between 1 and 2 and the second is larger", "the exponent reported is too small")

H = '''from hypotheses import *
from reference import *
from bound_mu import *
from exponent_pair import *
from fractions import Fraction as F
def mu(s, m, n="b"): return Hypothesis(n, "Upper bound on mu", Bound_mu(s, m), "p", Reference.make("A", 2000))
def ep(k, l, n="e"): return Hypothesis(n, "Exponent pair", Exp_pair(k, l), "p", Reference.make("A", 2000))
'''
bug("H01-alias", "H01",
    [("hypotheses.py", "        self.hypotheses = set()\n        self.add_hypotheses(hypotheses)\n",
      "        # A set can be used as it is, no need to rebuild it\n        self.hypotheses = set()\n        if isinstance(hypotheses, set) and hypotheses:\n            self.hypotheses = hypotheses\n        else:\n            self.add_hypotheses(hypotheses)\n")],
    H + '''a, b = mu(F(1,2), F(1,6)), mu(F(3,4), F(1,10))
src = {a}
s = Hypothesis_Set(src)
s.add_hypothesis(b)
assert src == {a}, src
''', "a store built from a Python set, then added to (or a copy of a store, then added to)",
    "the store shares its membership with the caller's set, and copies share it with the original")

bug("H01-lost-add", "H01",
    [("hypotheses.py", "            self.hypotheses.update(new_hypotheses)\n", "            self.hypotheses = self.hypotheses | set(new_hypotheses)\n")],
    H + '''import threading
a, b, c = mu(F(1,2), F(1,6)), mu(F(3,4), F(1,10)), mu(F(2,3), F(1,10))
s = Hypothesis_Set([a])
def gen():
    t = threading.Thread(target=s.add_hypotheses, args=([c],)); t.start(); t.join()
    yield b
s.add_hypotheses(gen())
assert set(s) == {a, b, c}, s
''', "an addition by another thread between reading the old membership and storing the new one",
    "concurrent additions are lost")

bug("H02-set-stale", "H02",
    [("hypotheses.py", "            self.add_hypotheses(new_hypotheses.hypotheses, invalidate_data)\n",
      "            self.hypotheses |= new_hypotheses.hypotheses\n")],
    H + '''s = Hypothesis_Set([mu(F(1,2), F(1,6))])
assert best_mu_bound(F(1,2), s).data.mu == F(1,6)
s.add_hypotheses(Hypothesis_Set([mu(F(1,2), F(1,8))]))
assert best_mu_bound(F(1,2), s).data.mu == F(1,8)
''', "a hull query, then adding a whole store, then another query",
    "the precomputed hull is not invalidated when the added container is a store")

bug("H02-early-valid", "H02",
    [("bound_mu.py", "    conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))\n    vertices = [bounds[v] for v in conv.vertices]\n    hypothesis_set.data[\"convex_hull\"] = vertices\n    hypothesis_set.data_valid = True\n",
      "    hypothesis_set.data[\"convex_hull\"] = vertices = []\n    hypothesis_set.data_valid = True\n    conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))\n    vertices.extend(bounds[v] for v in conv.vertices)\n")],
    H + '''import bound_mu
s = Hypothesis_Set([mu(F(1,2), F(1,6))])
real = bound_mu.ConvexHull
def bad(*a): raise MemoryError()
bound_mu.ConvexHull = bad
try: best_mu_bound(F(1,2), s)
except MemoryError: pass
bound_mu.ConvexHull = real
assert best_mu_bound(F(1,2), s).data.mu == F(1,6)
''', "the hull computation fails or is interrupted part-way and the query is repeated",
    "an empty hull is kept and treated as valid after a failed computation")

bug("M01-reflect-order", "M01",
    [("bound_mu.py", "    exp_pairs = compute_exp_pairs(hypothesis_set)\n    bounds.extend(obtain_mu_bound_from_exponent_pair(p) for p in exp_pairs)\n", "    exp_pairs = compute_exp_pairs(hypothesis_set)\n    pair_bounds = [obtain_mu_bound_from_exponent_pair(p) for p in exp_pairs]\n"),
     ("bound_mu.py", "            bounds.append(apply_functional_equation(bound))\n    return bounds\n", "            bounds.append(apply_functional_equation(bound))\n    return bounds + pair_bounds\n")],
    H + '''s = Hypothesis_Set([ep(F(1,14), F(11,14))])
b = best_mu_bound(F(2,7), s)
assert b.data.mu == F(1,14) + F(5,7) - F(1,2), b.data
''', "an exponent pair whose mirror image is not derivable by the available transforms, and a query on the mirrored side",
    "bounds from exponent pairs are not mirrored by the functional equation, so the bound returned is not the best")

bug("M01-float-claim", "M01",
    [("bound_mu.py", "    if bound.data.mu <= mu:\n", "    # compare numerically, since mu may be given as a decimal\n    if float(bound.data.mu) <= float(mu):\n")],
    H + '''s = Hypothesis_Set([mu(F(1,2), F(1,6))])
assert not prove_mu_bound(F(1,2), F(1,6) - F(1, 10**20), s)
assert prove_mu_bound(F(1,2), F(1,6), s)
''', "a claimed bound that is smaller than the best one by less than the floating point resolution",
    "a proof is produced for a claim that does not follow")

bug("E01-skip-years", "E01",
    [("exponent_pair.py", "            if len(hyps) == num_hypotheses:\n                continue\n            num_hypotheses = len(hyps)\n",
      "            known = len(hyps.list_hypotheses(\"Exponent pair\"))\n            if known == num_hypotheses:\n                continue\n            num_hypotheses = known\n")],
    H + '''from literature import A_transform_hypothesis
def old(k, l): return Hypothesis("e", "Exponent pair", Exp_pair(k, l), "p", Reference.make("A", 1900))
s = Hypothesis_Set([old(F(0), F(1)), old(F(1,2), F(1,2)), A_transform_hypothesis])
p = find_best_proof(F(1,6), F(2,3), s, Proof_Optimization_Method.DATE)
assert p is not None
''', "a transform that became available in a year without a new exponent pair, needed for the pair asked for",
    "proofs by date miss pairs that follow only once a later transform is available")

bug("E01-max-complexity", "E01",
    [("exponent_pair.py", "            comp = sum(v.proof_complexity() for v in tri)\n", "            comp = max(v.proof_complexity() for v in tri)\n")],
    H + '''import itertools
def derived(k, l, n):
    h = ep(k, l)
    for i in range(n): h.dependencies.add(mu(F(1,2), F(1,6)))
    return h
best = [derived(F(1,20), F(7,10), 3), derived(F(1,3), F(9,10), 0), derived(F(1,3), F(11,20), 0)]
worse = [derived(F(1,18), F(7,10), 3), derived(F(1,3), F(19,20), 3), derived(F(1,3), F(8,15), 3)]
import random
for seed in range(40):
    hs = best + worse
    random.Random(seed).shuffle(hs)
    s = Hypothesis_Set(hs)
    s.list_hypotheses = lambda *a, **k: list(hs)
    p = construct_proof(F(1,4), F(7,10), s)
    assert sum(d.proof_complexity() for d in p.dependencies) == 6, (seed, p.dependencies)
''', "several triangles of pairs with the same longest member but different total length",
    "the proof chosen for a pair is longer than another proof that was considered")

BB = H + '''from bound_beta import *
from functions import *
def bb(m, c, d, n): return Hypothesis(n, "Upper bound on beta", Bound_beta(Affine(F(m), F(c), Interval(d))), "p", Reference.make("A", 2000))
def ev(hs, x): return [(h, h.data.bound.at(x)) for h in hs if h.data.bound.domain.contains(x)]
'''
bug("B01-reuse-partial", "B01",
    [("bound_beta.py", "        if b == depend.data.bound:\n", "        if b.function_equals(depend.data.bound):\n")],
    BB + '''s = Hypothesis_Set([bb(1, 0, "[0, 1/2]", "u"), bb(0, F(1,4), "[0, 1/2]", "v")])
r = compute_best_beta_bounds(s)
assert len(ev(r, F(1,8))) == 1 and ev(r, F(1,8))[0][1] == F(1,8), r
''', "a bound that is best on only a part of its domain",
    "pieces overlap: the whole bound is returned where only a part of it is best")

bug("B01-merge-labels", "B01",
    [("functions.py", "                and pieces[j].label == pieces[j + 1].label\n", "")],
    BB + '''s = Hypothesis_Set([bb(F(1,2), F(1,10), "[0, 1/4]", "u"), bb(F(1,2), F(1,10), "[1/4, 1/2]", "v"), bb(1, F(1,5), "[0, 1/2]", "w")])
for h in compute_best_beta_bounds(s):
    d = h.data.bound.domain
    for g in (h.dependencies or [h]):
        e = g.data.bound.domain
        assert e.x0 <= d.x0 and d.x1 <= e.x1, (h.data, g.data)
''', "two bounds with the same formula on adjacent domains, or an isolated point where two bounds agree",
    "pieces from different bounds are merged and attributed to one that does not cover them")

PP = '''from polytope import *
from fractions import Fraction as F
import copy
'''
bug("P02-setminus-inplace", "P02",
    [("polytope.py", "        A = self.mat.copy()\n        B = other.mat\n", "        A = self.mat\n        B = other.mat\n")],
    PP + '''p = Polytope.rect((0, 2), (0, 2)); q = Polytope.rect((1, 3), (1, 3))
p.set_minus(q)
assert p.contains([F(1,2), F(1,2)])
''', "using a polytope again after subtracting another from it",
    "set difference changes its first operand")

bug("P03-lift-thin", "P03",
    [("polytope.py", "            # The upper bound \n            c = [upper]", "            # No upper bound is needed for an empty range\n            if upper <= lower:\n                continue\n            c = [upper]")],
    PP + '''p = Polytope.rect((0, 1)).lift([0, (2, 2)])
assert p.contains([F(1,2), 2]) and not p.contains([F(1,2), 3])
''', "lifting with a range that is a single point",
    "the lifted polytope is unbounded in the new dimension")

bug("P03-scale-eq", "P03",
    [("polytope.py", "eq_rows = [[r[0]] + [r[i + 1] / factors[i] for i in range(D)] for r in eq_rows]", "eq_rows = [list(r) for r in eq_rows]")],
    PP + '''p = Polytope([[0, 1, 0], [1, -1, 0]]).intersect(Polytope([[0, 1, -1]], linear=True))
q = p.scale_all([1, 2])
assert q.contains([F(1,2), 1]) and not q.contains([F(1,2), F(1,2)])
''', "scaling a flat polytope, whose equality involves two axes with different factors",
    "equality constraints are not scaled")

GG = PP + '''from region import *
def rc(*l): return Region.from_polytope(Polytope.rect(*l))
'''
bug("G01-memo-label", "G01",
    [("region.py", "                poly.dependencies = {self.child.label}\n", "                if not hasattr(self.child, \"dependencies\"):\n                    self.child.dependencies = {self.child.label}\n                poly.dependencies = self.child.dependencies\n")],
    GG + '''a = rc((0, 4), (0, 4)); a.set_label("a")
a.as_disjoint_union(track_dependencies=True)
a.set_label("z")
r = a.as_disjoint_union(track_dependencies=True)
assert all(p.child.dependencies == {"z"} for p in r.child)
''', "tracking dependencies, relabelling a region and tracking again",
    "pieces name a label their polytope no longer has")

bug("G01-halfplane-neg", "G01",
    [("region.py", "            neg_ineq.append([-x for x in hp])\n", "            neg_ineq = [[-x for x in hp]]\n")],
    GG + '''r = Region.from_union_of_halfplanes([[-1, 1, 0], [-1, 0, 1], [-3, 1, 1]], [[0, 1, 0], [4, -1, 0], [0, 0, 1], [4, 0, -1]])
n = sum(p.child.contains([F(7,2), F(1,2)]) for p in r.child)
assert n == 1, n
n = sum(p.child.contains([F(7,2), F(1,4)]) for p in r.child)
assert n == 1, n
''', "three or more half-spaces whose first and third overlap outside the second",
    "the pieces of a union of half-spaces overlap")

bug("G02-project-stop", "G02",
    [("region.py", "            ps = [p for p in ps if p is not None]\n            if len(ps) == 0: return None\n            # Remain",
      "            if None in ps: ps = ps[:ps.index(None)]\n            if len(ps) == 0: return None\n            # Remain")],
    GG + '''e = Region.from_polytope(Polytope([[-1, 1, 0], [0, -1, 0], [0, 0, 1], [1, 0, -1]]))
r = Region.union([rc((0, 1), (0, 1)), e, rc((2, 3), (0, 1))]).project({0})
assert r.contains([F(5,2)]) and r.contains([F(1,2)])
''', "projecting a union with an empty member that is not the last one",
    "members after an empty one are lost")

bug("G02-scale-complement", "G02",
    [("region.py", "            return Region(self.region_type, self.child.scale_all(factors))\n", "            return Region(Region_Type.POLYTOPE, self.child.scale_all(factors)) if isinstance(self.child, Polytope) else self.child.scale_all(factors)\n")],
    GG + '''r = Region.complement(rc((0, 1), (0, 1))).scale_all([2, 2])
assert r.contains([3, 3]) and not r.contains([1, 1])
''', "scaling a complement", "the scaled complement is the scaled region itself")


bug("P01-partial", "P01",
    [("polytope.py", "        v = self.polyhedron.get_generators()\n        self.vertices = [r[1:] for r in v if r[0] == 1]  # unpack matrix output\n        self.rays = [r[1:] for r in v if r[0] == 0]\n",
      "        self.vertices, self.rays = [], []\n        for r in self.polyhedron.get_generators():  # unpack matrix output\n            (self.vertices if r[0] == 1 else self.rays).append(r[1:])\n")],
    PP + '''p = Polytope.rect((0, 1), (0, 1))
class Bad:
    def get_generators(self): raise MemoryError()
real = p.polyhedron
p.polyhedron = Bad()
try: p.get_vertices()
except MemoryError: pass
p.polyhedron = real
assert len(p.get_vertices()) == 4
''', "the vertex computation fails or is interrupted and the polytope is used again",
    "a failed query leaves an incomplete list of vertices that is then taken as complete")

bug("P01-const-row", "P01",
    [("polytope.py", "if not all(ci == 0 for ci in c)]", "if not all(ci == 0 for ci in c[1:])]")],
    PP + '''p = Polytope([[0, 1, 0], [1, -1, 0], [0, 0, 1], [1, 0, -1], [-1, 0, 0]])
assert p.is_empty() and not p.contains([F(1,2), F(1,2)])
''', "a constraint without variables that cannot be satisfied (as substitution or formulas produce)",
    "an unsatisfiable constraint is dropped, so an empty polytope is treated as non-empty")

bug("P02-cover-flat", "P02",
    [("polytope.py", "            cons.append(eq)\n            cons.append(tuple(-x for x in eq))\n", "            cons.append(eq)\n")],
    PP + '''p = Polytope.rect((0, 1), (0, 1))
flat = Polytope.rect((-1, 2), (-1, 2)).intersect(Polytope([[0, 1, 0]], linear=True))
assert not p.is_covered_by([flat])
''', "a covering list with a flat polytope on the right side of the covered one",
    "a polytope is reported as covered by a flat one")

LITD = '''import sys
from fractions import Fraction as F
import literature as L
from literature import *
S = L.literature
def lv(typ, author, tag):
    return [h for h in S.list_hypotheses(typ) if author in h.reference.author() and h.name.endswith(tag)][0]
'''
bug("C01-jutila-tau", "C01",
    [("literature.py", "[6 * k, -8 * k, 1]],", "[6 * k, -8 * k, min(k, 2)]],")],
    LITD + '''h = lv("Large value estimate", "Jutila", "k = 3")
s, t = F(9, 10), F(3, 2)
b = max(2 - 2 * s, 4 - F(2, 3) - (6 - F(2, 3)) * s + t, 18 - 24 * s + t)
assert h.data.region.contains([s, t, b]) and not h.data.region.contains([s, t, b + F(1, 100)])
s, t = F(7, 9), F(2)
b = max(2 - 2 * s, 4 - F(2, 3) - (6 - F(2, 3)) * s + t, 18 - 24 * s + t)
assert h.data.region.contains([s, t, b]) and not h.data.region.contains([s, t, b + F(1, 100)])
''', "an estimate with k >= 2, at points where its last bound is the largest", "the estimate stored is weaker than the theorem")
bug("C01-ivic-gap", "C01",
    [("literature.py", "    rect2.append([-1, 0, 1, 0, 0, 0]) # tau >= 1\n", "    rect2.append([-frac(3,2), 0, 1, 0, 0, 0]) # the range not covered above\n")],
    LITD + '''h = [h for h in S.list_hypotheses("Large value energy region") if h.reference.author().startswith("Ivi")][0]
assert h.data.region.contains([F(3, 4), F(5, 4), F(1, 2), F(3, 2), F(4)])
''', "tau between 1 and 3/2", "patterns which the theorem allows are excluded")
bug("C01-d-piece", "C01",
    [("literature.py", """    ).max_with([Affine(frac(2, 3), frac(1, 12), domain)])

    return""", """    ).max_with([Affine(frac(2, 3), frac(1, 12), Interval(frac(1,4), frac(1,2), True, True))])

    return""")],
    LITD + '''for k, l in [(F(0), F(1)), (F(13, 84), F(55, 84)), (F(1, 6), F(2, 3)), (F(1, 2), F(1, 2)), (F(1, 4), F(2, 3))]:
    h = ep.literature_exp_pair(k, l, Reference.make("N", 1999))
    bs = D_transform_hypothesis.data.transform(h)
    for a in [F(1, 100), F(1, 10), F(1, 5), F(6, 25), F(3, 10), F(9, 20)]:
        d = 5 * k + 3 * l + 2
        w = max((6 * k + 5 * l + 2) / (2 * d) * a + (5 * k + l + 2) / (8 * d), F(2, 3) * a + F(1, 12))
        g = [b.data.bound.at(a) for b in bs if b.data.bound.domain.contains(a)]
        assert g and all(x == w for x in g), (k, l, a, w, g)
''', "an exponent pair and an alpha below 1/4 at which the second bound of the transform is the larger", "the transform claims more than the theorem")
bug("C01-mu-year", "C01",
    [("literature.py", 'literature.list_hypotheses("Upper bound on mu", year))', 'literature.list_hypotheses("Upper bound on mu", year - 1))')],
    LITD + '''T = Hypothesis_Set()
add_bounds_mu_as_of(T, 1989)
assert best_mu_bound(F(1, 2), T).data.mu == F(89, 560), best_mu_bound(F(1, 2), T).data
''', "a year in which a record was published", "results of the year asked for are left out")
bug("C01-pintz-range", "C01",
    [("literature.py", "Itvl(sigma_lower, 1 - frac(1, 2 * k * (k + 1))),", "Itvl(sigma_lower, 1 - frac(1, 2 * (k + 1) * (k + 1))),")],
    LITD + '''for h in S.list_hypotheses("Zero density estimate"):
    if h.reference.year() == 2023 and h.data.interval.x0 == 1 - F(1, 84):
        assert h.data.interval.x1 == 1 - F(1, 112), h.data
''', "an abscissa just beyond the range of one member of the family", "the estimate is applied beyond the theorem's range")
bug("C01-ivic-max", "C01",
    [("literature.py", """            sigma_lower = min(
                frac(6 * k**2 - 5 * k + 2, 8 * k**2 - 7 * k + 2),
                frac(9 * k**2 - 4 * k + 2, 12 * k**2 - 6 * k + 2)
            )""", """            sigma_lower = max(
                frac(6 * k**2 - 5 * k + 2, 8 * k**2 - 7 * k + 2),
                frac(9 * k**2 - 4 * k + 2, 12 * k**2 - 6 * k + 2)
            )""")],
    LITD + '''x = [h.data.interval.x0 for h in S.list_hypotheses("Zero density estimate") if h.data.expr.replace(" ", "") == "15/(13*x+-3)"]
k = 5
assert x == [min(F(6 * k**2 - 5 * k + 2, 8 * k**2 - 7 * k + 2), F(9 * k**2 - 4 * k + 2, 12 * k**2 - 6 * k + 2))], x
''', "k >= 4, between the two lower limits", "the theorem is missing on a part of its range")
bug("C01-hb3-k", "C01",
    [("literature.py", "[frac(k,2), -k, frac(k,4), -1, frac(1,4), 0]", "[frac(k,2), -k, frac(min(k, 3),4), -1, frac(1,4), 0]")],
    LITD + '''def hb(s, t, r, q, k):
    return r <= max(2 - 2 * s, q / 4 + max(t / 4 + F(3 * k, 4), F(k) * t / 4 + F(k, 2)) - k * s)
import random
R = random.Random(1)
for k in (1, 2, 3, 4):
    h = lv("Large value energy region", "Heath-Brown", "3 with k = %d" % k)
    for _ in range(6000):
        x = [F(R.randint(500, 999), 1000), F(R.randint(100, 3000), 1000), F(R.randint(0, 2000), 1000), F(R.randint(0, 2000), 1000)]
        assert h.data.region.contains(x + [F(1)]) == hb(*x, k), (x, k)
''', "k = 4 and tau > 1", "patterns which the theorem allows are excluded")
bug("C01-robert-range", "C01",
    [("literature.py", """                Interval(0, frac(k - 1, k * (k - 1) - (2 * k - 3)), True, True),
            ).max_with(""", """                Interval(0, frac(k - 1, k * (k - 1) - (2 * k - 1)), True, True),
            ).max_with("""),
     ("literature.py", """                        0,
                        Interval(0, frac(k - 1, k * (k - 1) - (2 * k - 3)), True, True),""", """                        0,
                        Interval(0, frac(k - 1, k * (k - 1) - (2 * k - 1)), True, True),""")],
    LITD + '''x = max(h.data.bound.domain.x1 for h in S.list_hypotheses("Upper bound on beta", 2016) if h.reference.year() == 2016 and h.data.bound.m == 1 - F(1, 24))
assert x == F(4, 13), x
''', "an alpha just beyond the range of a member of the family", "the bound is applied beyond the theorem's range")
bug("C01-up-to", "C01",
    [("literature.py", """def add_exp_pairs_up_to(hypothesis_list, year):
    hypothesis_list.add_hypothesis(trivial_exp_pair)
""", """def add_exp_pairs_up_to(hypothesis_list, year):
    if not literature.list_hypotheses("Exponent pair", year):
        hypothesis_list.add_hypothesis(trivial_exp_pair)
""")],
    LITD + '''T = Hypothesis_Set()
add_exp_pairs_up_to(T, 1990)
assert any((h.data.k, h.data.l) == (0, 1) for h in T)
''', "a year by which some exponent pair was published", "the trivial exponent pair is missing from those known")
bug("C01-bourgain-tau", "C01",
    [("literature.py", """            [Constants.TAU_UPPER_LIMIT, 0, -1, 0],
            [1, -1, 0, 0]
        ]),""", """            [4, 0, -1, 0],
            [1, -1, 0, 0]
        ]),""")],
    LITD + '''h = [h for h in S.list_hypotheses("Large value estimate") if "optimized" in h.name][0]
assert h.data.region.contains([F(9, 10), F(9, 2), F(4)])
''', "tau > 4", "patterns with tau > 4 are excluded")

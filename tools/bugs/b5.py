DP = '''import sys, io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    import derived as D
from fractions import Fraction as F
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
'''
bug("X01-leak-hyps", "X01",
    [("derived.py", '''    hypotheses = Hypothesis_Set()
    hypotheses.add_hypotheses(lv.large_value_estimate_L2)

    # Only''', '''    hypotheses = prove_zero_density.__dict__.setdefault("classical", Hypothesis_Set())
    hypotheses.add_hypotheses(lv.large_value_estimate_L2)

    # Only''')],
    DP + '''quiet(D.prove_zero_density_guth_maynard_2024_v2)
h = quiet(D.prove_zero_density, [], False, D.Interval(F(7,10), F(3,4)), "x", D.Affine(-1, 2, D.Interval(F(7,10), F(3,4))), False, 2)
assert h[0].data.at(F(37,50)) == 3/F(63,50), h[0].data
assert not any("Guth" in d.name for d in h[0].recursive_dependencies())
''', "two derivations in one session, the first from stronger results", "hypotheses of earlier derivations leak into later ones")
bug("X01-pollute-literature", "X01",
    [("derived.py", '''    hypothesis = copy.copy(literature)
''', '''    hypothesis = literature
''')],
    DP + '''n = len(D.literature)
quiet(D.best_proof_of_exponent_pair, F(1,6), F(2,3))
assert len(D.literature) == n, len(D.literature)
''', "a search for a proof of an exponent pair before the literature is used again", "a derivation adds results to the literature")
bug("X01-vdc-deep", "X01",
    [("derived.py", '''    for _ in range(k - 2):
        exp_pair = A_transform.data.transform(exp_pair)
    print(f"The van der''', '''    for _ in range(min(k, 12) - 2):
        exp_pair = A_transform.data.transform(exp_pair)
    print(f"The van der''')],
    DP + '''p = quiet(D.van_der_corput_pair, 14)
assert p.data.k == F(1, 2**14 - 2), p.data
''', "a van der Corput pair of high order", "high order van der Corput pairs stop at k = 12")
bug("X01-power-range", "X01",
    [("derived.py", '''        for k in range(2, 6):
            hypotheses.add_hypothesis(lv.raise_to_power_hypothesis(k))
    hypotheses.add_hypotheses(additional_hypotheses)
''', '''        for k in range(2, 4):
            hypotheses.add_hypothesis(lv.raise_to_power_hypothesis(k))
    hypotheses.add_hypotheses(additional_hypotheses)
''')],
    DP + '''h = quiet(D.prove_zero_density_guth_maynard_2024)
assert len(h) == 1 and h[0].data.at(F(4,5)) == F(15)/7, [str(x.data) for x in h]
h = [x for p in quiet(D.prove_zero_density_heathbrown_1979b) for x in p]
assert h[0].data.at(F(22,25)) == 3/(F(220,25)-7), h[0].data
h = quiet(D.prove_zero_density_ingham_1940)
assert h[0].data.at(F(3,5)) == 3/F(7,5)
h = quiet(D.prove_zero_density_huxley_1972)
assert h[0].data.at(F(39,40)) == 3/(F(117,40)-1), h[0].data
h = quiet(D.prove_zero_density_heathbrown_extended)
assert h[0].data.at(F(39,40)) == 3/(F(390,40)-7), h[0].data
''', "a derivation by the first corollary that needs a fourth or fifth power", "high powers of large value estimates are not used")
bug("X01-heathbrown-tau0", "X01",
    [("derived.py", '''    tau0 = Affine(3, -frac(3,4), sigma)
    zdts.append''', '''    tau0 = Affine(3, frac(-4,3), sigma)
    zdts.append''')],
    DP + '''h = quiet(D.prove_zero_density_heathbrown_1979b_v2)[1]
assert h[0].data.at(F(19,20)) == 4/(F(76,20)-1), [str(x.data) for x in h]
''', "the second part of one derivation by the second corollary", "the second Heath-Brown bound is weaker than published")
bug("X01-energy-domain", "X01",
    [("derived.py", '''    tau0 = Affine(0, 2, Interval(frac(42,55), frac(79,103)))
    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)''', '''    tau0 = Affine(0, frac(9,4), Interval(frac(42,55), frac(79,103)))
    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)''')],
    DP + '''h = quiet(D.prove_zero_density_energy_5)
x = F(765, 1000)
v = [g.data.at(x) for g in h if g.data.interval.contains(x)]
assert v == [3*(19*x-18)/(4*(x-1)*(4*x-1))] or v == [(19*x-18)/(6*(x-1)*(15*x-11))], (v, [str(g.data) for g in h])
''', "one of the energy derivations", "the energy bound derived is weaker than published")
bug("X01-unrelated-lv", "X01",
    [("derived.py", '''    new_hyps = [
        literature.find_hypothesis(keywords="Jutila large value estimate, k = 3"),
        literature.find_hypothesis(keywords="Heath-Brown large value estimate")
        ]
    
    # Create a hypothesis representing the (3/40, 31/40) exponent pair
    hs = Hypothesis_Set()
    hs.add_hypothesis(
        ep.derived_exp_pair(
            frac(3,40), frac(31,40), 
            'See best_proof_of_exponent_pair(frac(3, 40), frac(31, 40))', 
            {})
        )
    
    # Convert the exponent pair to beta bounds, add the other ZLV assumptions, 
    # which will be used to calculate the best zeta large value estimate
    new_hyps.extend(bbeta.exponent_pairs_to_beta_bounds(hs))
    
    sigma''', '''    new_hyps = [
        literature.find_hypothesis(keywords="Jutila large value estimate, k"),
        literature.find_hypothesis(keywords="Heath-Brown large value estimate")
        ]
    
    # Create a hypothesis representing the (3/40, 31/40) exponent pair
    hs = Hypothesis_Set()
    hs.add_hypothesis(
        ep.derived_exp_pair(
            frac(3,40), frac(31,40), 
            'See best_proof_of_exponent_pair(frac(3, 40), frac(31, 40))', 
            {})
        )
    
    # Convert the exponent pair to beta bounds, add the other ZLV assumptions, 
    # which will be used to calculate the best zeta large value estimate
    new_hyps.extend(bbeta.exponent_pairs_to_beta_bounds(hs))
    
    sigma''')],
    DP + '''L = sorted(D.literature.to_list(), key=lambda h: h.name)
for i in range(6):
    D.literature = D.Hypothesis_Set(L)
    for h in quiet(D.prove_zero_density_heathbrown_extended_v2):
        for d in h.recursive_dependencies():
            assert "Jutila" not in d.name or d.name.endswith("k = 3"), d.name
    # another order of the literature
    D.literature = D.Hypothesis_Set()
    import random; random.Random(i).shuffle(L)
    for h in L:
        h2 = D.copy.copy(h); D.literature.add_hypothesis(h2)
''', "an order of the literature in which another member of the family comes first", "the estimate used depends on the order of the literature")

GP = '''import sys, io, contextlib, re
from fractions import Fraction as F
import prime_gap as PG, zero_density_estimate as ZD, zero_density_energy_estimate as ZE
from hypotheses import Hypothesis_Set
from reference import Reference
from functions import Interval
def store(As, Bs):
    S, ref = Hypothesis_Set(), Reference.make("A", 2000)
    for t, a, b in As:
        ZD.add_zero_density(S, t, Interval(a, b), ref)
    for t, a, b in Bs:
        S.add_hypothesis(ZE.literature_zero_density_energy_estimate(t, Interval(a, b), ref))
    return S
def gap(S):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        PG.compute_gap2(S)
    out = []
    for l in o.getvalue().splitlines():
        m = re.match(r"\\[([^,]+),([^,]+?)\\) (-?[0-9.e+-]+|inf) ", l)
        if m:
            out.append((F(m.group(1)), F(m.group(2)), float(m.group(3))))
    return out
def sup(A, B, a, b, n=20000):
    xs = [float(a) + (float(b) - float(a)) * (i + .5) / n for i in range(n)]
    return max(max(4*x - 2 + 2*(B(x)*(1-x) - 1)/(B(x) - A(x)), 4*x - 2 + (B(x)*(1-x) - 1)/A(x)) for x in xs)
H, O = F(1, 2), F(1)
'''
bug("N01-zd-ends", "N01",
    [("prime_gap.py", '''    crits.update(zh.data.interval.x1 for zh in best_ze)
''', '''    crits.update(zh.data.interval.x1 for zh in best_ze[:-1])
    crits = {c for c in crits if any(zh.data.interval.contains(c) for zh in best_ze)} | {frac(1)}
    if len(best_ze) > len(best_zd):
        crits.difference_update(zh.data.interval.x0 for zh in best_zd[1:])
''')],
    GP + '''S = store([("3/(2-x)", H, O), ("12/5", F(3,5), O), ("3/(3*x-1)", F(4,5), O)],
    [("15", H, F(3,5)), ("14", F(3,5), F(7,10)), ("13", F(7,10), F(9,10)), ("12/(4*x-1) + 2", F(9,10), O)])
for a, b, v in gap(S):
    A = lambda x: min([3/(2-x)] + ([12/5] if x >= .6 else []) + ([3/(3*x-1)] if x >= .8 else []))
    B = lambda x: 15 if x < .6 else 14 if x < .7 else 13 if x < .9 else 12/(4*x-1) + 2
    assert abs(sup(A, B, a, b) - v) < 1e-2, (a, b, v, sup(A, B, a, b))
''', "a store whose energy bound has more pieces than the zero density bound", "a range straddles a change of the best zero density estimate")
bug("N01-label-memo", "N01",
    [("prime_gap.py", '''    best_zd = zd.best_zero_density_estimate(hypotheses, verbose=False)
    for zdh''', '''    # aggregating is expensive and depends on the available estimates only
    key = tuple(sorted(h.name + str(h.data.interval) for h in hypotheses.list_hypotheses(hypothesis_type="Zero density estimate")))
    cache = compute_gap2.__dict__.setdefault("best", {})
    if key not in cache:
        cache[key] = zd.best_zero_density_estimate(hypotheses, verbose=False)
    best_zd = cache[key]
    for zdh''')],
    GP + '''S = store([("3/(2-x)", H, O)], [("12/(4*x-1) + 3", H, O)])
a = gap(S)
T = store([("12/5", H, O)], [("12/(4*x-1) + 3", H, O)])
b = gap(T)
assert abs(b[0][2] - sup(lambda x: 12/5, lambda x: 12/(4*x-1) + 3, H, O)) < 1e-2, (a, b)
''', "two computations from different stores whose estimates share names and ranges", "the best zero density estimate of an earlier store is used")
bug("N01-mid-clash", "N01",
    [("prime_gap.py", '''        zeh = next(h for h in best_ze if h.data.interval.contains(mid))
''', '''        zeh = next(h for h in best_ze if h.data.interval.x1 >= min(mid, zdh.data.interval.midpoint()))
''')],
    GP + '''S = store([("3/(2-x)", H, O)], [("15", H, F(3,5)), ("14", F(3,5), F(7,10)), ("13", F(7,10), F(9,10)), ("12", F(9,10), O)])
r = gap(S)
for a, b, v in r:
    B = lambda x: 15 if x < .6 else 14 if x < .7 else 13 if x < .9 else 12
    assert abs(sup(lambda x: 3/(2-x), B, a, b) - v) < 1e-2, (a, b, v)
''', "an energy bound that changes beyond the middle of a zero density piece", "a stale energy bound is used beyond the middle of a zero density piece")
DP2 = '''from fractions import Fraction as F
import zero_density_estimate as ZD, exponent_pair as EP
from functions import Interval, RationalFunction as RF
def pair(k, l):
    return EP.derived_exp_pair(F(k), F(l), "given", set())
def v(k, l, m):
    X = 1 + 2*k + 2*l
    return (3*m*m*X - (4*k+2*l)*m + 2*k + 2*l) / (4*m*m*X - (6*k+4*l)*m + 2*k + 2*l)
def start(ps, m):
    return min(F(6*m*m-5*m+2, 8*m*m-7*m+2), max(F(9*m*m-4*m+2, 12*m*m-6*m+2), min(v(p.data.k, p.data.l, m) for p in ps)))
'''
bug("D02-ivic-clamp", "D02",
    [("zero_density_estimate.py", '''        if v < sigma0:
            sigma0 = v
            dep = eph
''', '''        # the range is bounded by this point anyway
        enough = frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2)
        if v < sigma0 and (dep is None or sigma0 > enough):
            sigma0 = v
            dep = eph
''')],
    DP2 + '''import itertools
for ps in itertools.permutations([pair(F(1,3), F(1,2)), pair(F(1,4), F(1,2)), pair(F(11,28), F(11,21)), pair(F(2,15), F(1,2))], 2):
    for m in (2, 3, 5):
        h = ZD.ivic_ep_to_zd(list(ps), m)
        assert h.data.interval.x0 == start(ps, m), (ps[0].data, ps[1].data, m, h.data.interval, start(ps, m))
''', "several exponent pairs that all reach beyond the unconditional range, the best not first", "the search for the best exponent pair stops at the first useful one")
bug("D02-ivic-order", "D02",
    [("zero_density_estimate.py", '''    sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
    sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
''', '''    sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
    sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
''')],
    DP2 + '''ps = [pair(F(1,20), F(1,2)), pair(F(1,40), F(1,2))]
for m in range(2, 13):
    h = ZD.ivic_ep_to_zd(ps, m)
    assert h.data.interval.x0 == start(ps, m), (m, h.data.interval, start(ps, m))
''', "a large m, for which the two fixed points change order", "the unconditional range is not used where it is the larger one")
bug("D02-bourgain-merge", "D02",
    [("zero_density_estimate.py", '''        if s1[0] == s2[0] and s1[1].x1 == s2[1].x0:
            # Merge
            s1[1].x1 = s2[1].x1
            soln.pop(i)

    # for s in soln:''', '''        # (a range too short to be worth a separate estimate joins the one above it)
        short = i > 1 and s1[1].x1 - s1[1].x0 < frac(1, 20)
        if (s1[0] == s2[0] or short) and s1[1].x1 == s2[1].x0:
            # Merge
            s2[1].x0 = s1[1].x0
            soln.pop(i - 1)

    # for s in soln:''')],
    DP2 + '''hs = ZD.bourgain_ep_to_zd()
P = [(F(11, 85), F(59, 85)), (F(391, 4595), F(3461, 4595)), (F(2779, 38033), F(58699, 76066)), (F(1101653, 15854002), F(12327829, 15854002)),
     (F(1959, 47230), F(3975, 4723)), (F(1175779, 38456886), F(16690288, 19228443)), (F(89, 3478), F(15327, 17390)), (F(1, 100), F(14, 15))]
lo = min(h.data.interval.x0 for h in hs)
for i in range(1, 400):
    x = F(float(lo)).limit_denominator(10**6) + F(i, 401) * (1 - F(float(lo)).limit_denominator(10**6))
    w = min(4*k/(2*(1+k)*x - 1 - l) for k, l in P if x > (l+1)/(2*(k+1)) and 2*(1+k)*x - 1 - l > 0)
    g = [float(h.data.at(x)) for h in hs if h.data.interval.contains(x)]
    assert len(g) == 1 and abs(g[0] - float(w)) < 1e-9, (x, g, w)
''', "sigma in a short range of Bourgain's estimate", "short ranges get the estimate of the neighbouring pair, which is not the best there")
bug("D02-merge-run", "D02",
    [("zero_density_estimate.py", '''            if not (fi == fj and right == intj.x0):
                break
''', '''            if not (fi == fj and (right == intj.x0 or j > i + 1)):
                break
''')],
    DP2 + '''f, g = RF([1], [1]), RF([1, 0], [1])
ps = [(f, Interval(F(1,2), F(6,10))), (f, Interval(F(6,10), F(7,10))), (f, Interval(F(8,10), F(9,10)))]
out = ZD.simplify(ps)
assert not any(i.contains(F(3,4)) for _, i in out), [str(i) for _, i in out]
''', "three pieces with the same function, a gap after the second", "pieces are merged across a gap")

"""The published theorems, transcribed from the text of the blueprint (not from literature.py).  Years are those of
the bibliography entries cited (the reprint of a book of 1985 is dated 2003 there).

Everything is exact.  A claim on a one-variable function is (authors, year, lo, hi, f) with f(x) the bound on [lo, hi]; f may be
infinite where a theorem says nothing.  A claim on large values is (authors, year, tag, model) with model a point predicate.
"""
import math
from fractions import Fraction as F

H = F(1, 2)
INF = float("inf")


def lin(c, m, q=1):
    """x -> (c + m x) / q"""
    c, m, q = F(c), F(m), F(q)
    return lambda x: (c + m * x) / q


def mx(*fs):
    return lambda x: max(f(x) for f in fs)


# ------------------------------------------------------------------ beta.tex
BETA = []


def beta(authors, year, lo, hi, f):
    BETA.append((authors, year, F(lo), F(hi), f))


beta("Watt", 1989, "3/7", H, lin(F(89, 560), H))
beta("Huxley, Kolesnik", 1991, "2/5", H, mx(lin(1, 8, 22), lin(11, 112, 158), lin(1, 17, 22)))
beta("Huxley", 1993, 0, "49/114", mx(lin(F(13, 60), F(7, 20)), lin(F(11, 120), F(13, 20))))
beta("Huxley", 1993, "49/114", H, lin(F(89, 570), H))
for _lo, _hi, _f in [(0, "87/275", lin(13, 94, 146)), ("87/275", "423/1295", lin(11, 191, 244)),
                     ("423/1295", "227/601", lin(89, 908, 1282)), ("227/601", "12/31", lin(29, 173, 280)),
                     ("12/31", 1, lin(4, 103, 128))]:
    beta("Huxley", 1993, _lo, _hi, _f)
beta("Sargos", 1995, 0, 1, lambda a: max(a + 3 * (1 - 4 * a) / 40, F(7, 8) * a, a / 3 - (1 - 4 * a) / 6, 0))
beta("Sargos", 1995, 0, 1, lambda a: max(a + (1 - 4 * a) / 14, F(5, 6) * a, a / 3 - (1 - 4 * a) / 6, 0))
HUX1 = [("7/12", "517/873", lin(4, 39, 60)), ("65/114", "7/12", lin(29, 42, 120)), ("49/114", "65/114", lin(89, 285, 570)),
        ("5/12", "49/114", lin(11, 78, 120)), ("356/873", "5/12", lin(13, 21, 60)), ("12/31", "356/873", lin(4, 103, 128)),
        ("227/601", "12/31", lin(29, 173, 280)), ("423/1295", "227/601", lin(89, 908, 1282)),
        ("87/275", "423/1295", lin(11, 191, 244)), ("1424/4747", "87/275", lin(13, 94, 146)),
        ("120/419", "1424/4747", lin(4, 235, 264)), ("967/3428", "120/419", lin(49, 1351, 1614)),
        ("199/716", "967/3428", lin(29, 464, 600)), ("19/74", "199/716", lin(89, 2243, 2706)),
        ("161/646", "19/74", lin(11, 428, 492)), ("2848/12173", "161/646", lin(13, 253, 318))]
HUX2 = [("106822/246639", "139817/246639", lin(89, 285, 570)), ("675/1574", "106822/246639", lin(2387, 17972, 27290)),
        ("699371/1647930", "675/1574", lin(2819, 19177, 29855)), ("156527/370694", "699371/1647930", lin(11897, 88442, 134680)),
        ("263/638", "156527/370694", lin(113, 897, 1345)), ("143/349", "263/638", lin(491, 3624, 5530)),
        ("307/761", "143/349", lin(569, 1053, 2800)), ("68682/171139", "307/761", lin(1273, 2484, 6410)),
        ("12/31", "68682/171139", lin(4, 103, 128)), ("227/601", "12/31", lin(29, 173, 280))]
for _lo, _hi, _f in HUX1 + HUX2:
    beta("Huxley", 1996, _lo, _hi, _f)
beta("Huxley, Kolesnik", 2001, "2/5", H, mx(lin(F(7, 80), F(79, 120)), lin(F(3, 32), F(103, 160)), lin(F(9, 40), F(13, 40))))
beta("Robert, Sargos", 2002, 0, 1, lambda a: max(a + (1 - 4 * a) / 13, -7 * (1 - 4 * a) / 13))
beta("Sargos", 2003, 0, 1, lambda a: max(a + (1 - 8 * a) / 204, -95 * (1 - 8 * a) / 204))
beta("Sargos", 2003, 0, 1, lambda a: max(a + 7 * (1 - 9 * a) / 2640, -1001 * (1 - 9 * a) / 2640))
beta("Huxley", 2005, "1/3", H, mx(lin(37, 59, 170), lin(63, 449, 690)))
beta("Robert", 2016, 0, "3/7", lambda a: max(a + (1 - 4 * a) / 12, 11 * a / 12))
for _k in range(4, 20):
    beta("Robert", 2016, 0, F(_k - 1, _k * (_k - 1) - (2 * _k - 3)),
         lambda a, k=_k: a + max((1 - k * a) / (2 * (k - 1) * (k - 2)), -a / (2 * (k - 1) * (k - 2))))
for _k in range(3, 20):
    beta("Heath-Brown", 2017, 0, 1, lambda a, k=_k: a + max((1 - k * a) / (k * (k - 1)), -a / (k * (k - 1)),
                                                             -2 * a / (k * (k - 1)) - 2 * (1 - k * a) / (k * k * (k - 1))))
beta("Bourgain", 2017, "1/3", "5/12", lin(F(2, 9), F(1, 3)))
beta("Bourgain", 2017, "5/12", "3/7", lin(F(1, 12), F(2, 3)))
beta("Bourgain", 2017, "3/7", H, lin(F(13, 84), H))
# Table 3 of Trudgian and Yang: the best bounds on the whole of [0, 1/2]; three rows are new with that paper
TY = [(0, "2848/12173", lin(F(13, 414), F(359, 414))), ("2848/12173", "161/646", lin(F(13, 318), F(253, 318))),
      ("161/646", "19/74", lin(F(11, 492), F(107, 123))), ("19/74", "199/716", lin(F(89, 2706), F(2243, 2706))),
      ("199/716", "967/3428", lin(F(29, 600), F(58, 75))), ("967/3428", "120/419", lin(F(49, 1614), F(1351, 1614))),
      ("120/419", "1328/4447", lin(F(1, 66), F(235, 264))), ("1328/4447", "104/343", lin(F(13, 194), F(139, 194))),
      ("104/343", "87/275", lin(F(13, 146), F(47, 73))), ("87/275", "423/1295", lin(F(11, 244), F(191, 244))),
      ("423/1295", "227/601", lin(F(89, 1282), F(454, 641))), ("227/601", "12/31", lin(F(29, 280), F(173, 280))),
      ("12/31", "1508/3825", lin(F(1, 32), F(103, 128))), ("1508/3825", "62831/155153", lin(F(18, 199), F(521, 796))),
      ("62831/155153", "143/349", lin(F(569, 2800), F(1053, 2800))), ("143/349", "263/638", lin(F(491, 5530), F(1812, 2765))),
      ("263/638", "1673/4038", lin(F(113, 1345), F(897, 1345))), ("1673/4038", "5/12", lin(F(2, 9), F(1, 3))),
      ("5/12", "3/7", lin(F(1, 12), F(2, 3))), ("3/7", H, lin(F(13, 84), H))]
TY = [(F(a), F(b), f) for a, b, f in TY]
for _i in (0, 7, 13):
    beta("Trudgian, Yang", 2023, *TY[_i])

# -------------------------------------------------------- exponent_pairs.tex
PAIRS = [("Huxley, Watt", 1988, "9/56", "37/56"), ("Watt", 1989, "89/560", "369/560"), ("Huxley, Kolesnik", 1991, "17/108", "71/108"),
         ("Huxley", 1993, "89/570", "187/285"), ("Huxley", 2005, "32/205", "269/410"), ("Bourgain", 2017, "13/84", "55/84"),
         ("Huxley, Watt", 1990, "2/13", "35/52"), ("Huxley", 1996, "6299/43860", "29507/43860"),
         ("Sargos", 1995, "771/8116", "1499/2029"), ("Sargos", 1995, "21/232", "173/232"), ("Sargos", 1995, "1959/21656", "16135/21656"),
         ("Huxley, Kolesnik", 2001, "516247/6629696", "5080955/6629696"), ("Robert, Sargos", 2002, "1/13", "10/13"),
         ("Sargos", 2003, "1/204", "197/204"), ("Robert", 2002, "1/360", "44/45"), ("Sargos", 2003, "7/2640", "323/330"),
         ("Sargos", 2003, "1/716", "707/716"), ("Robert, Sargos", 2001, "1/649", "640/649"), ("Robert", 2002, "7/4540", "4477/4540"),
         ("Robert", 2002, "1/615", "202/205"), ("Robert", 2002, "1/915", "181/183"),
         ("Trudgian, Yang", 2023, "4742/38463", "35731/51284"), ("Trudgian, Yang", 2023, "18/199", "593/796"),
         ("Trudgian, Yang", 2023, "2779/38033", "58699/76066"), ("Trudgian, Yang", 2023, "715/10238", "7955/10238")]
PAIRS = [(a, y, F(k), F(l)) for a, y, k, l in PAIRS]
for _m in range(1, 20):
    _k = F(169, 1424 * 2 ** _m - 338)
    PAIRS.append(("Huxley", 1996, _k, 1 - _k * (_m + F(1577, 712))))
for _m in range(3, 20):
    PAIRS.append(("Heath-Brown", 2017, F(2, (_m - 1) ** 2 * (_m + 2)), 1 - F(3 * _m - 2, _m * (_m - 1) * (_m + 2))))
TRANSFORMS = {"van der Corput A transform": lambda k, l: (k / (2 * k + 2), l / (2 * k + 2) + H),
              "van der Corput B transform": lambda k, l: (l - H, k + H),
              "Sargos C transform": lambda k, l: (k / (12 * (1 + 4 * k)), (11 * (1 + 4 * k) + l) / (12 * (1 + 4 * k)))}


def d_transform(k, l, a):
    """Sargos 1995, Theorem 7.1, on [0, 1/2]."""
    d = 5 * k + 3 * l + 2
    return max((6 * k + 5 * l + 2) / (2 * d) * a + (5 * k + l + 2) / (8 * d), F(2, 3) * a + F(1, 12))


def hull_vertices(n):
    """The table of vertices of the hull of known exponent pairs left of the diagonal, up to the n-th Heath-Brown pair (the table
    starts at the 14th of its numbering, which is the pair of m = 6 here: the slopes only increase that way)."""
    v = [("13/84", "55/84"), ("4742/38463", "35731/51284"), ("18/199", "593/796"), ("2779/38033", "58699/76066"),
         ("89/1282", "997/1282"), ("652397/9713986", "7599781/9713986"), ("2371/43205", "280013/345640"),
         ("9/217", "1461/1736"), ("10769/351096", "609317/702192"), ("89/3478", "15327/17390")]
    v = [(F(a), F(b)) for a, b in v]
    for m in range(6, n + 1):
        v.append((F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2))))
    return v


HULL = sorted(hull_vertices(60))


def hull_at(k):
    """The least l for which (k, l) is in the hull, HULL[0] <= k <= 13/84."""
    for (a, b), (c, d) in zip(HULL, HULL[1:]):
        if a <= k <= c:
            return b + (d - b) * (k - a) / (c - a)
    return None


# ----------------------------------------------------------- zeta_growth.tex
MU = [("Hardy, Littlewood", 1923, H, "1/6"), ("Walfisz", 1924, H, "193/988"), ("Titchmarsh", 1931, H, "27/164"),
      ("Phillips", 1933, H, "229/1392"), ("Titchmarsh", 1942, H, "19/116"), ("Min", 1949, H, "15/92"), ("Haneke", 1963, H, "6/37"),
      ("Kolesnik", 1973, H, "173/1067"), ("Kolesnik", 1982, H, "35/216"), ("Kolesnik", 1985, H, "139/858"),
      ("Bombieri, Iwaniec", 1986, H, "9/56"), ("Watt", 1989, H, "89/560"), ("Huxley, Kolesnik", 1991, H, "17/108"),
      ("Huxley", 1993, H, "89/570"), ("Huxley", 1996, "1934/3655", "6299/43860"), ("Sargos", 2003, "49/51", "1/204"),
      ("Sargos", 2003, "361/370", "1/370"), ("Huxley", 2005, H, "32/205"), ("Lelechenko", 2014, "3/5", "1409/12170"),
      ("Lelechenko", 2014, "4/5", "3/71"), ("Bourgain", 2017, H, "13/84"), ("Demeter, Guth, Wang", 2020, "11/15", "1/15")]
MU = [(a, y, F(s), F(m)) for a, y, s, m in MU]
MU += [("Corput", 1920, 1 - F(n, 2 ** n - 2), F(1, 2 ** n - 2)) for n in range(4, 20)]
MU += [("Hardy, Littlewood", None, 1 - F(1, 2 ** (n - 1)), F(1, (n + 1) * 2 ** (n - 1))) for n in range(4, 20)]
MUTHM = [(H, "88225/153852", lin(31, -36, 84)), ("88225/153852", "521/796", lin(220633, -251324, 620612)),
         ("521/796", "53141/76066", lin(1333, -1508, 3825)), ("53141/76066", "3620/5119", lin(405, -454, 1202)),
         ("3620/5119", "52209/69128", lin(49318855, -52938216, 170145110)), ("52209/69128", "1389/1736", lin(471957, -502648, 1682490)),
         ("1389/1736", "134765/163248", lin(2841, -3016, 10316)), ("134765/163248", "18193/21906", lin(859, -908, 3214)),
         ("18193/21906", "249/280", lin(5 * 8707, -5 * 9067, 180277)), ("249/280", "9/10", lin(29, -30, 130))]
MUTHM = [(F(a), F(b), f) for a, b, f in MUTHM]

# ---------------------------------------------------------- large_values.tex
BIG = F(1000000)


def lvmax(*rows):
    return lambda s, t: max(F(a) + F(b) * s + F(c) * t for a, b, c in rows)


def bourgain(s, t):
    """The least value over a1, a2 >= 0 of the five bounds of Bourgain's theorem (tau > 1), exactly: the optimum of a linear
    programme in (a1, a2, M) is at a point where three constraints are tight."""
    fs = [(0, 1, 2 - 2 * s), (1, H, 2 - 2 * s), (0, -1, 2 * t + 4 - 8 * s), (-2, 0, t + 12 - 16 * s),
          (4, 0, 2 + max(F(1), 2 * t - 2) - 4 * s)]
    cand = [(F(0), F(0))]
    n = len(fs)
    for i in range(n):
        for j in range(i):
            a, b, c = (fs[i][q] - fs[j][q] for q in range(3))        # equality of two bounds: a x + b y + c = 0
            if a and -c / a >= 0:
                cand.append((-c / F(a), F(0)))
            if b and -c / b >= 0:
                cand.append((F(0), -c / F(b)))
            for k in range(j):
                d, g, h = (fs[i][q] - fs[k][q] for q in range(3))
                det = F(a) * g - F(b) * d
                if det:
                    x, y = (b * h - g * c) / det, (c * d - a * h) / det
                    if x >= 0 and y >= 0:
                        cand.append((x, y))
    return min(max(f[0] * x + f[1] * y + f[2] for f in fs) for x, y in cand)


LVS = [("Huxley", 1972, None, lvmax((2, -2, 0), (4, -6, 1))), ("Heath-Brown", 1979, None, lvmax((2, -2, 0), (10, -13, 1))),
       ("Guth, Maynard", 2024, None, lvmax((2, -2, 0), ("18/5", -4, 0), ("12/5", -4, 1))),
       ("Bourgain", 2000, None, lambda s, t: BIG if t <= 1 else bourgain(s, t))]
for _k in range(1, 20):
    LVS.append(("Jutila", 1977, "k = %d" % _k, lvmax((2, -2, 0), (4 - F(2, _k), F(2, _k) - 6, 1), (6 * _k, -8 * _k, 1))))
ZLVS = [("Heath-Brown", 1978, None, lvmax((6, -12, 2)))]


# ------------------------------------------------- large value energy regions
def e_ivic(s, t, r, q, w):
    return t > 1 or w <= max(2 + r, 1 + 2 * r)


def e_hb1(s, t, r, q, w):
    return w <= max(2 + r, 1 + 2 * r, 1 + t / 2 + F(5, 4) * r)


def e_hb2a(s, t, r, q, w):
    """rho* <= 1 - 2 sigma + half of a maximum over the first sum and of one over the second."""
    return q <= 1 - 2 * s + max(r + 1, 2 * r, F(5, 4) * r + t / 2) / 2 + max(q + 1, 4 * r, F(3, 4) * q + r + t / 2) / 2


def e_hb2b(s, t, r, q, w):
    return t > F(3, 2) or q <= max(3 * r + 1 - 2 * s, r + 4 - 4 * s, F(5, 2) * r + F(3, 2) - 2 * s)


def e_hb3(k):
    return lambda s, t, r, q, w: r <= max(2 - 2 * s, q / 4 + max(t / 4 + F(3 * k, 4), F(k) * t / 4 + F(k, 2)) - k * s)


def e_gm1(k):
    def f(s, t, r, q, w):
        s1 = F(-10)
        s2 = max(2 + 2 * r, t + 1 + (2 - F(1, k)) * r, 2 + 2 * r + (t / 2 - F(3, 4) * r) / k)
        s3 = min(2 * t + r / 2 + q / 2, max(2 * t + F(3, 2) * r, t + 1 + r / 2 + q / 2))
        return r <= max(2 - 2 * s, 1 - 2 * s + max(s1, s2, s3) / 3)
    return f


def e_gm2(s, t, r, q, w):
    return t > F(3, 2) or q <= max(3 * r + 1 - 2 * s, 2 * r + 2 - 2 * s)


def e_gm3(s, t, r, q, w):
    return not 1 <= t <= F(4, 3) or q <= max(r + 4 - 4 * s, F(21, 8) * r + t / 4 + 1 - 2 * s, 3 * r + 1 - 2 * s)


LVERS = [("Heath-Brown", 1979, "1", e_hb1), ("Ivi", 2003, None, e_ivic), ("Heath-Brown", 1979, "2a", e_hb2a),
         ("Heath-Brown", 1979, "2b", e_hb2b), ("Guth, Maynard", 2024, "2", e_gm2), ("Guth, Maynard", 2024, "3", e_gm3)]
LVERS += [("Heath-Brown", 1979, "3 with k = %d" % k, e_hb3(k)) for k in range(1, 5)]
LVERS += [("Guth, Maynard", 2024, "1 with k = %d" % k, e_gm1(k)) for k in range(1, 4)]


# ----------------------------------------------------------- zero_density.tex
def q(n, a, b):
    """x -> n / (a x + b)"""
    return lambda x: F(n) / (F(a) * x + F(b))


ZD = [("Carlson", 1921, H, 1, lambda x: 4 * x), ("Ingham", 1940, H, 1, q(3, -1, 2)),
      ("Montgomery", 1971, H, 1, lambda x: 1600 * math.sqrt(1 - x)), ("Huxley", 1972, H, 1, q(3, 3, -1)),
      ("Huxley", 1973, "55/67", "189/230", q(39, 115, -75)), ("Huxley", 1973, "189/230", "75/89", lambda x: F(2)),
      ("Huxley", 1973, "61/74", "75/89", lambda x: F(48) / (37 * (2 * x - 1))),
      ("Huxley", 1975, "37/42", 1, q("3/2", 1, 0)), ("Huxley", 1975, "61/74", "37/42", lambda x: F(48) / (37 * (2 * x - 1))),
      ("Huxley", 1975, "80119/100000", 1, lambda x: F(2)), ("Huxley", 1975, "4/5", 1, lambda x: F(2)),
      ("Heath-Brown", 1979, "25/28", 1, q(4, 4, -1)), ("Heath-Brown", 1979, "3/4", "25/28", q(3, 10, -7)),
      ("Heath-Brown", 1979, "11/14", 1, q(9, 7, -1)),
      ("Ivi", 1979, "67/87", 1, q(6, 5, -1)), ("Ivi", 1979, "28/37", "74/95", q(3, 34, -25)), ("Ivi", 1979, "74/95", 1, q(9, 7, -1)),
      ("Ivi", 1979, "4/5", 1, q("3/2", 1, 0)), ("Ivi", 1979, "115/166", 1, q(68, 98, -47)),
      ("Ivi", 1980, "3831/4791", 1, q("3/2", 1, 0)), ("Ivi", 1980, "11/14", 1, lambda x: F(2)), ("Ivi", 1980, "41/53", 1, q(9, 7, -1)),
      ("Ivi", 1980, "13/17", 1, q(6, 5, -1)), ("Ivi", 1980, "17/18", 1, q(4, 2, 1)), ("Ivi", 1980, "155/174", "17/18", q(24, 30, -11)),
      ("Jutila", 1983, "155/174", 1, lambda x: (F(3, 2) - x) / (1 - x)),
      ("Ivi", 1984, "3/4", "10/13", q(3, 7, -4)), ("Ivi", 1984, "10/13", 1, q(9, 8, -2)), ("Ivi", 1984, "10/13", "5/6", q(15, 22, -10)),
      ("Conrey", 1989, H, 1, lambda x: (1 + (1 - 2 * x) * F(4, 7)) / (1 - x)),
      ("Bourgain", 1995, "15/16", 1, q(4, 30, -25)), ("Bourgain", 1995, "17/19", 1, q(2, 7, -5)),
      ("Bourgain", 2000, "25/32", 1, lambda x: F(2)), ("Ford", 2002, H, 1, lambda x: 58.05 * math.sqrt(1 - x)),
      ("Bourgain", 2002, "3734/4694", 1, q("3/2", 1, 0)), ("Heath-Brown", 2017, "9/10", 1, lambda x: 6.42 * math.sqrt(1 - x)),
      ("Pintz", 2023, "23/24", "39/40", q(3, 24, -20)), ("Pintz", 2023, "39/40", "41/42", q(2, 15, -12)),
      ("Pintz", 2023, "41/42", "59/60", q(3, 40, -35)),
      ("Chen, Debruyne, Vindas", 2024, "279/314", "17/18", q(24, 30, -11)), ("Guth, Maynard", 2024, H, 1, q(15, 5, 3))]
for _k in range(3, 100):
    _lo = F(41, 53) if _k == 3 else min(F(6 * _k ** 2 - 5 * _k + 2, 8 * _k ** 2 - 7 * _k + 2),
                                        F(9 * _k ** 2 - 4 * _k + 2, 12 * _k ** 2 - 6 * _k + 2))
    ZD.append(("Ivi", 2003, _lo, 1, q(3 * _k, 3 * _k - 2, 2 - _k)))
for _k in range(6, 23):
    ZD.append(("Pintz", 2023, 1 - F(1, 2 * _k * (_k - 1)), 1 - F(1, 2 * _k * (_k + 1)),
               lambda x, k=_k: F(3) / (k * (1 - 2 * (k - 1) * (1 - x)))))
ZD = [(a, y, F(lo), F(hi), f) for a, y, lo, hi, f in ZD]
ZDE = [("Heath-Brown", 1979, H, F(2, 3), lambda x: (10 - 11 * x) / ((2 - x) * (1 - x))),
       ("Heath-Brown", 1979, F(2, 3), F(3, 4), lambda x: (18 - 19 * x) / ((4 - 2 * x) * (1 - x))),
       ("Heath-Brown", 1979, F(3, 4), F(1), lambda x: F(12) / (4 * x - 1))]

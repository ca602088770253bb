"""Small exact reference models (Fractions only; independent of the library)."""
from fractions import Fraction as F
from itertools import permutations


# ------------------------------------------------------------------ 2-d hulls
def lower_hull(pts):
    """Lower convex hull of exact points, left to right."""
    best = {}
    for x, y in pts:
        if x not in best or y < best[x]:
            best[x] = y
    P = sorted(best.items())
    H = []
    for p in P:
        while len(H) >= 2:
            (x1, y1), (x2, y2) = H[-2], H[-1]
            if (x2 - x1) * (p[1] - y1) - (y2 - y1) * (p[0] - x1) <= 0:
                H.pop()
            else:
                break
        H.append(p)
    return H


def eval_hull(H, x):
    if not H or x < H[0][0] or x > H[-1][0]:
        return None
    for i in range(len(H)):
        if H[i][0] == x:
            return H[i][1]
        if H[i][0] > x:
            (x1, y1), (x2, y2) = H[i - 1], H[i]
            return y1 + (y2 - y1) * (x - x1) / (x2 - x1)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def convex_hull(pts):
    """Counterclockwise hull, no collinear points."""
    P = sorted(set(pts))
    if len(P) <= 2:
        return P
    lo = []
    for p in P:
        while len(lo) >= 2 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    up = []
    for p in reversed(P):
        while len(up) >= 2 and cross(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]


def in_hull(H, p):
    """Exact membership in the closed convex hull (H from convex_hull)."""
    if not H:
        return False
    if len(H) == 1:
        return H[0] == p
    if len(H) == 2:
        if cross(H[0], H[1], p) != 0:
            return False
        return min(H) <= p <= max(H)
    return all(cross(H[i], H[(i + 1) % len(H)], p) >= 0 for i in range(len(H)))


def hull_margin(H, p):
    """Signed distance-like margin of p to the hull boundary (float)."""
    if len(H) < 3:
        return 0.0 if in_hull(H, p) else -1.0
    m = float("inf")
    for i in range(len(H)):
        a, b = H[i], H[(i + 1) % len(H)]
        L = (float(b[0] - a[0]) ** 2 + float(b[1] - a[1]) ** 2) ** 0.5
        m = min(m, float(cross(a, b, p)) / L)
    return m


def in_triangle(a, b, c, p):
    d = [cross(a, b, p), cross(b, c, p), cross(c, a, p)]
    return all(x >= 0 for x in d) or all(x <= 0 for x in d)


# ------------------------------------------------------------ exponent pairs
def TA(p):
    k, l = p
    return (k / (2 * k + 2), (k + l + 1) / (2 * k + 2))


def TB(p):
    k, l = p
    return (l - F(1, 2), k + F(1, 2))


def TC(p):
    k, l = p
    return (k / (12 * (1 + 4 * k)), (11 * (1 + 4 * k) + l) / (12 * (1 + 4 * k)))


TRANS = {"A": TA, "B": TB, "C": TC}


def closure(pairs, order, rounds=5, prune=True):
    """All pairs reachable when each round applies the transforms in this order.

    Keeping only the hull between rounds loses nothing: the transforms are
    projective with a positive denominator, so they map hulls to hulls.
    """
    cur = set(pairs)
    for _ in range(rounds):
        for t in order:
            f = TRANS[t]
            cur |= {f(p) for p in list(cur)}
        if prune and len(cur) >= 3:
            cur = set(convex_hull(list(cur)))
    return cur


def closures(pairs, names, rounds=5):
    """Reachable sets for every order in which the transforms may be listed."""
    if not names:
        return [set(pairs)]
    return [closure(pairs, o, rounds) for o in set(permutations(names))]


def mu_points(bounds, pairs):
    pts = list(bounds) + [(F(1), F(0))] + [(l - k, k) for k, l in pairs]
    pts += [(1 - s, m + s - F(1, 2)) for s, m in pts if 2 * s != 1]
    return pts


def trivial_mu(s):
    if s <= 0:
        return F(1, 2) - s
    if s >= 1:
        return F(0)
    return F(1, 2) - s / 2


def mu_range(sigma, bounds, pairs, tnames, cache=None):
    """(best, worst) implied bound over the transform orders, as exact numbers."""
    if sigma <= 0 or sigma >= 1:
        return trivial_mu(sigma), trivial_mu(sigma)
    vals = []
    key = (tuple(sorted(bounds)), tuple(sorted(pairs)), tuple(sorted(tnames)))
    if cache is not None and key in cache:
        hulls = cache[key]
    else:
        hulls = [lower_hull(mu_points(bounds, c)) for c in closures(pairs, tuple(tnames))]
        if cache is not None:
            cache[key] = hulls
    for h in hulls:
        v = eval_hull(h, sigma)
        t = trivial_mu(sigma)
        vals.append(t if v is None else min(v, t))
    return min(vals), max(vals)


# -------------------------------------------------------------- affine minima
def affine_min(pieces, x):
    """pieces: (m, c, x0, x1, incl0, incl1, id). (value, ids) at x, or (None, [])."""
    best, ids = None, []
    for m, c, x0, x1, i0, i1, k in pieces:
        if (x0 < x or (x0 == x and i0)) and (x < x1 or (x == x1 and i1)):
            v = m * x + c
            if best is None or v < best:
                best, ids = v, [k]
            elif v == best:
                ids.append(k)
    return best, ids

"""Exact reference geometry for small polytopes, written from the definitions only.

A polyhedron is (d, rows, eqs): rows are tuples (c, a1..ad) meaning c + a.x >= 0, eqs the
same with = 0. All arithmetic is rational; vertices come from brute-force enumeration of
d-subsets of constraints. Nothing here is shared with the library.
"""
from fractions import Fraction as F
from itertools import combinations

BIG = F(10 ** 7)


def ev(r, x):
    s = r[0]
    for i, v in enumerate(x):
        a = r[i + 1]
        if a:
            s += a * v
    return s


def solve(rows, d):
    """The unique solution of rows = 0, or None."""
    m = [[r[i + 1] for i in range(d)] + [-r[0]] for r in rows]
    for c in range(d):
        p = next((i for i in range(c, len(m)) if m[i][c] != 0), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        pv = m[c][c]
        if pv != 1:
            m[c] = [v / pv for v in m[c]]
        for i in range(len(m)):
            if i != c and m[i][c] != 0:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[c])]
    return tuple(m[i][d] for i in range(d))


def rank(vecs):
    m = [list(v) for v in vecs if any(v)]
    r = 0
    if not m:
        return 0
    for c in range(len(m[0])):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        for i in range(r + 1, len(m)):
            if m[i][c] != 0:
                f = m[i][c] / m[r][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        r += 1
        if r == len(m):
            break
    return r


class MP:
    """A reference polyhedron."""

    def __init__(self, d, rows, eqs=()):
        self.d = d
        self.rows = [tuple(F(v) for v in r) for r in rows]
        self.eqs = [tuple(F(v) for v in r) for r in eqs]
        self._v = None

    def cons(self):
        return self.rows + self.eqs + [tuple(-v for v in r) for r in self.eqs]

    def contains(self, x):
        return all(ev(r, x) >= 0 for r in self.rows) and all(ev(r, x) == 0 for r in self.eqs)

    def on_boundary(self, x):
        return any(ev(r, x) == 0 for r in self.rows + self.eqs)

    def inside(self, x):
        return all(ev(r, x) > 0 for r in self.rows) and not self.eqs

    def verts(self):
        """Vertices (exactly the extreme points of a bounded polytope)."""
        if self._v is None:
            d = self.d
            allr = list(dict.fromkeys(r for r in self.rows + self.eqs if any(r[1:])))
            out = set()
            if all(r[0] >= 0 for r in self.rows if not any(r[1:])) and all(r[0] == 0 for r in self.eqs if not any(r[1:])):
                # parallel rows cannot meet: skip them early through solve() returning None
                for c in combinations(allr, d):
                    x = solve(c, d)
                    if x is not None and x not in out and self.contains(x):
                        out.add(x)
            self._v = sorted(out)
        return self._v

    def boxed(self, b=BIG):
        rows = []
        for i in range(self.d):
            lo = [F(0)] * (self.d + 1)
            lo[0], lo[i + 1] = b, F(1)
            hi = [F(0)] * (self.d + 1)
            hi[0], hi[i + 1] = b, F(-1)
            rows += [tuple(lo), tuple(hi)]
        return MP(self.d, self.rows + rows, self.eqs)

    def bounded(self):
        return all(all(abs(c) < BIG for c in v) for v in self.boxed().verts())

    def empty(self, bounded=True):
        return not (self if bounded else self.boxed()).verts()

    def dim(self, bounded=True):
        v = (self if bounded else self.boxed()).verts()
        if not v:
            return -1
        return rank([[a - b for a, b in zip(p, v[0])] for p in v[1:]])

    def interior_empty(self, bounded=True):
        return self.dim(bounded) < self.d

    def edges(self):
        v = self.verts()
        out = set()
        allr = self.rows + self.eqs
        tight = {p: {i for i, r in enumerate(allr) if ev(r, p) == 0} for p in v}
        for p, q in combinations(v, 2):
            t = tight[p] & tight[q]
            if self.d - rank([allr[i][1:] for i in t]) == 1:
                out.add(frozenset((p, q)))
        return out

    def subset(self, o):
        """Every point of this bounded polytope is in o."""
        return all(o.contains(v) for v in self.verts())

    def meet(self, o):
        return MP(self.d, self.rows + o.rows, self.eqs + o.eqs)

    def minus(self, o):
        """Full-dimensional pieces of self minus o, disjoint up to boundaries."""
        if o.eqs:
            return [self]
        out = []
        rows = list(self.rows)
        for r in o.rows:
            p = MP(self.d, rows + [tuple(-v for v in r)], self.eqs)
            if not p.interior_empty():
                out.append(p)
            rows = rows + [r]
        return out

    def covered(self, others):
        """Covered by the union of others, up to lower-dimensional sets."""
        rest = [] if self.interior_empty() else [self]
        for o in others:
            nxt = []
            for p in rest:
                if p.meet(o).interior_empty():
                    nxt.append(p)
                else:
                    nxt += [tidy(q) for q in p.minus(o)]
            rest = nxt
            if not rest:
                return True
        return not rest

    def interior_point(self):
        v = self.verts()
        n = len(v)
        return tuple(sum(p[i] for p in v) / n for i in range(self.d))


def tidy(p):
    """Drop rows that no vertex touches and duplicates (bounded, full-dimensional)."""
    v = p.verts()
    keep = []
    seen = set()
    for r in p.rows:
        t = frozenset(i for i, x in enumerate(v) if ev(r, x) == 0)
        if len(t) < p.d or t in seen:
            continue
        if rank([[a - b for a, b in zip(v[i], v[min(t)])] for i in t]) < p.d - 1:
            continue
        seen.add(t)
        keep.append(r)
    q = MP(p.d, keep, p.eqs)
    q._v = v
    return q


def hull_contains(verts, x, d):
    """Whether x is in the convex hull of points, for d = 1, 2, 3 (exact)."""
    pts = sorted(set(verts))
    if x in pts:
        return True
    if not pts:
        return False
    # Caratheodory: some simplex of at most d + 1 of the points contains x
    for k in range(2, d + 2):
        for c in combinations(pts, k):
            if in_simplex(c, x):
                return True
    return False


def in_simplex(c, x):
    """x is a convex combination of the affinely independent points c."""
    k = len(c)
    d = len(x)
    base = c[0]
    m = [[c[j][i] - base[i] for j in range(1, k)] + [x[i] - base[i]] for i in range(d)]
    n = k - 1
    r = 0
    piv = []
    for col in range(n):
        p = next((i for i in range(r, d) if m[i][col] != 0), None)
        if p is None:
            return False
        m[r], m[p] = m[p], m[r]
        pv = m[r][col]
        m[r] = [v / pv for v in m[r]]
        for i in range(d):
            if i != r and m[i][col] != 0:
                f = m[i][col]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(col)
        r += 1
    if any(m[i][n] != 0 for i in range(r, d)):
        return False
    lam = [m[i][n] for i in range(n)]
    return all(v >= 0 for v in lam) and sum(lam) <= 1


def extreme(pts, d):
    """The extreme points of a finite set."""
    pts = sorted(set(pts))
    out = list(pts)
    for p in pts:
        rest = [q for q in out if q != p]
        if hull_contains(rest, p, d):
            out = rest
    return sorted(out)


def cell_points(polys, rng, n, d, lo=F(-3), hi=F(5)):
    """Points in general position, biased to small cells of the arrangement of the rows."""
    rows = sorted({r for p in polys for r in p.rows + p.eqs if any(r[1:])})
    out = []
    for _ in range(n):
        x = [F(rng.randint(-3 * 997, 5 * 997), 997) for _ in range(d)]
        # put one coordinate between two neighbouring crossings of an axis-parallel line
        for i in rng.sample(range(d), d):
            xs = {lo, hi}
            for r in rows:
                if r[i + 1]:
                    rest = r[0] + sum(r[j + 1] * x[j] for j in range(d) if j != i)
                    xs.add(-rest / r[i + 1])
            xs = sorted(v for v in xs if lo <= v <= hi)
            k = rng.randrange(len(xs) - 1)
            x[i] = xs[k] + (xs[k + 1] - xs[k]) * F(rng.randint(300, 700), 1000)
        x = tuple(x)
        if not any(ev(r, x) == 0 for r in rows):
            out.append(x)
    return out

"""P01 polytope representations, P02 polytope decisions and set operations, P03 polytope maps."""
import copy

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_solver, fr, un
import models_poly as MQ
from models_poly import MP
import polytope as PT

MAXROWS, MAXV, MAXOBJ = 13, 26, 12


def to_model(p):
    """Read a library polytope through its public constraint list."""
    rows, eqs = [], []
    for c in p.get_constraints():
        co = [F(v) for v in c.coefficients]
        (eqs if c.inequality_type == PT.Constraint.EQUALS else rows).append(tuple(co))
    return MP(p.dimension(), rows, eqs)


def small(rng, lo=-3, hi=3, dens=(1, 1, 1, 2, 2, 3, 4)):
    d = rng.choice(dens)
    return F(rng.randint(lo * d, hi * d), d)


def gen_rows(rng, d):
    """Constraint rows, mostly of bounded polytopes around the unit scale."""
    style = rng.random()
    rows = []
    if style < 0.85:
        for i in range(d):
            lo = small(rng, -2, 1)
            w = rng.choice([F(0), F(1, 2), F(1), F(1), F(1), F(2), F(3, 2)]) if rng.random() < 0.9 else -F(1, 2)
            for c, s in ((-lo, 1), (lo + w, -1)):
                r = [F(0)] * (d + 1)
                r[0], r[i + 1] = c, F(s)
                rows.append(r)
    for _ in range(rng.randint(0, 3) if style < 0.85 else rng.randint(d, d + 4)):
        rows.append([small(rng, -1, 2)] + [F(rng.randint(-2, 2)) for _ in range(d)])
    if rng.random() < 0.15 and rows:
        r = rng.choice(rows)
        rows.append([v * rng.choice([1, 2, F(1, 3)]) for v in r])        # redundant copy
    if rng.random() < 0.1 and rows:
        r = rng.choice(rows)
        rows.append([-v for v in r])                                      # hidden equality
    rng.shuffle(rows)
    rows = [r for r in rows if any(r)]
    return [[fr(v) for v in r] for r in rows] or [[fr(1)] + ["0"] * (d - 1) + ["1"]]


def gen_poly(rng, d):
    k = rng.random()
    if k < 0.55:
        return {"k": "H", "rows": gen_rows(rng, d), "canon": rng.random() < 0.4}
    if k < 0.7:
        lims = []
        for _ in range(d):
            lo = small(rng, -2, 1)
            lims.append([fr(lo), fr(lo + rng.choice([F(0), F(1), F(1, 2), F(2)]))])
        return {"k": "rect", "lims": lims}
    if k < 0.95:
        n = rng.randint(1, d + 4)
        vs = [[fr(small(rng, -2, 2)) for _ in range(d)] for _ in range(n)]
        if rng.random() < 0.3 and len(vs) >= 2:
            a, b = rng.sample(vs, 2)
            vs.insert(rng.randrange(len(vs)), [fr((un(x) + un(y)) / 2) for x, y in zip(a, b)])
        if rng.random() < 0.2:
            vs.append(list(rng.choice(vs)))
        return {"k": "V", "vs": vs}
    return {"k": "lin", "rows": [[fr(small(rng, -1, 1))] + [fr(F(rng.randint(-2, 2))) for _ in range(d)]
                                 for _ in range(rng.randint(1, d))], "box": True}


def F_rows(rows):
    return [[un(v) for v in r] for r in rows]


def model_of(spec, d):
    if spec["k"] == "H":
        return MP(d, F_rows(spec["rows"]))
    if spec["k"] == "rect":
        rows = []
        for i, (a, b) in enumerate(spec["lims"]):
            for c, s in ((-un(a), 1), (un(b), -1)):
                r = [F(0)] * (d + 1)
                r[0], r[i + 1] = c, F(s)
                rows.append(r)
        return MP(d, rows)
    if spec["k"] == "lin":
        rows = [r for r in F_rows(spec["rows"]) if any(r)]
        return MP(d, [], rows)
    return None


class VModel(MP):
    """The convex hull of points: rows are found by brute force."""

    def __init__(self, pts, d):
        ext = MQ.extreme(pts, d)
        rows, eqs = hull_rows(ext, d)
        MP.__init__(self, d, rows, eqs)
        self._v = sorted(ext)


def nullspace(vecs, d):
    """A basis of {a : a.v = 0 for v in vecs}."""
    m = [list(v) for v in vecs]
    piv, r = [], 0
    for c in range(d):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        pv = m[r][c]
        m[r] = [v / pv for v in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    out = []
    for f in [c for c in range(d) if c not in piv]:
        v = [F(0)] * d
        v[f] = F(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][f]
        out.append(v)
    return out


def hull_rows(ext, d):
    from itertools import combinations
    p0 = ext[0]
    dirs = [[a - b for a, b in zip(p, p0)] for p in ext[1:]]
    eqs = []
    for n in nullspace(dirs, d) if dirs else nullspace([], d):
        eqs.append(tuple([-sum(a * b for a, b in zip(n, p0))] + n))
    k = MQ.rank(dirs) if dirs else 0
    rows = set()
    if k >= 1:
        for c in combinations(ext, k):
            base = c[0]
            span = [[a - b for a, b in zip(p, base)] for p in c[1:]]
            if MQ.rank(span) < k - 1:
                continue
            # normals of the facet inside the affine hull
            for n in nullspace(span + [e[1:] for e in eqs], d):
                r = tuple([-sum(a * b for a, b in zip(n, base))] + n)
                s = [MQ.ev(r, p) for p in ext]
                if all(v >= 0 for v in s) and any(s):
                    rows.add(r)
                elif all(v <= 0 for v in s) and any(s):
                    rows.add(tuple(-v for v in r))
    return sorted(rows), eqs


class PolyBase(Workload):
    cases = {"quick": 3000, "thorough": 40000}
    real = ["polytope.py", "pycddlib"]
    mix = {}
    faults = True
    dims = [1, 2, 2, 2, 2, 3, 3]

    def generate(self, rng, tier):
        d = rng.choice(self.dims)
        polys = [gen_poly(rng, d) for _ in range(rng.randint(1, 4))]
        ops = []
        kinds = [k for k, w in self.mix.items() for _ in range(w)]
        for _ in range(rng.randint(3, 10)):
            o = rng.choice(kinds)
            op = {"op": o, "i": rng.randrange(6), "js": [rng.randrange(6) for _ in range(rng.choice([1, 1, 2, 2, 3]))],
                  "r": rng.getrandbits(32), "fault": None}
            if rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["LinProg", "LinProg", "Polyhedron"], 6), gen_interrupt(rng, 120)])
            ops.append(op)
        return {"d": d, "polys": polys, "ops": ops}

    # ---------------------------------------------------------------- building
    def build(self, e, spec, d, lab, fault=None):
        if spec["k"] == "H":
            r = e.must(lambda: PT.Polytope(F_rows(spec["rows"]), canonicalize=spec["canon"]), lab, fault)
            return r, MP(d, F_rows(spec["rows"]))
        if spec["k"] == "rect":
            r = e.must(lambda: PT.Polytope.rect(*[(un(a), un(b)) for a, b in spec["lims"]]), lab, fault)
            return r, model_of(spec, d)
        if spec["k"] == "lin":
            m = model_of(spec, d)
            if not m.eqs:
                return None, None
            flat = e.must(lambda: PT.Polytope([list(r) for r in m.eqs], linear=True), lab, fault)
            if not flat.ok:
                return flat, None
            box = model_of({"k": "rect", "lims": [["-2", "2"]] * d}, d)
            r = e.must(lambda: flat.value.intersect(PT.Polytope.rect(*[(F(-2), F(2))] * d)), lab)
            return r, m.meet(box)
        pts = [[un(v) for v in p] for p in spec["vs"]]
        r = e.must(lambda: PT.Polytope.from_V_rep([list(p) for p in pts]), lab, fault)
        return r, VModel([tuple(p) for p in pts], d)

    # ------------------------------------------------------------------ running
    def run(self, case, e):
        import random
        d = case["d"]
        O = []

        def put(lib, mod, lab, bounded=None):
            if lib is None:
                return
            mod = self.norm(mod)
            if not any(any(r[1:]) for r in mod.rows + mod.eqs):
                return                      # the whole space has no representation in the library
            b = mod.bounded() if bounded is None else bounded
            if b and len(mod.verts()) > MAXV:
                return
            if len(mod.rows) + 2 * len(mod.eqs) > MAXROWS:
                return
            O.append((lib, mod, b))
            if len(O) > MAXOBJ:
                O.pop(0)

        for n, s in enumerate(case["polys"]):
            r, m = self.build(e, s, d, "build#%d" % n)
            if r is not None:
                put(r.value, m, "build")
        for n, op in enumerate(case["ops"]):
            if not O:
                return
            rng = random.Random(op["r"])
            lab = "%s#%d" % (op["op"], n)
            sel = [O[op["i"] % len(O)]] + [O[j % len(O)] for j in op["js"]]
            res = getattr(self, "op_" + op["op"])(e, op, sel, d, rng, lab)
            if res:
                for lib, mod in res:
                    if mod.d == d:
                        put(lib, mod, lab)
            m0 = sel[0][1]
            e.cover(op["op"], d, len(m0.rows), len(m0.eqs), sel[0][2], len(m0.verts()) if sel[0][2] else -1)
            e.probe("nontrivial")
            # the operands have not become other sets
            if n % 2 == 0:
                for lib, mod, b in sel:
                    self.member(e, lib, mod, rng, lab + "-operand", 6)

    def norm(self, m):
        """Simplify a reference model without changing its set."""
        if isinstance(m, VModel):
            return m
        rows = list(dict.fromkeys(m.rows))
        q = MP(m.d, rows, list(dict.fromkeys(m.eqs)))
        if not q.eqs and len(rows) > 6 and q.bounded() and not q.interior_empty():
            return MQ.tidy(q)
        return q

    def ask(self, e, fn, op, lab):
        """Call with the operation's fault; after a fault, the retry must work."""
        r = e.must(fn, lab, op["fault"])
        if not r.ok:
            e.probe("faulted_then_retried")
            r = e.must(fn, lab + "-retry")
        return r.value

    # ------------------------------------------------------------------ judging
    def member(self, e, lib, mod, rng, lab, n=10):
        pts = MQ.cell_points([mod], rng, n, mod.d)
        v = mod.verts()
        pts += rng.sample(v, min(3, len(v)))
        if len(v) >= 2:
            a, b = rng.sample(v, 2)
            pts.append(tuple((x + y) / 2 for x, y in zip(a, b)))
        for x in pts:
            g, w = lib.contains(list(x)), mod.contains(x)
            if bool(g) != w:
                e.fail("membership", "%s: membership of %s is %s, by the constraints %s (%s)" % (lab, fmt(x), g, w, show(mod)))

    def same(self, e, lib, mod, rng, lab):
        """The library polytope is exactly this (bounded) set."""
        if lib is None:
            if mod.verts():
                e.fail("result-missing", "%s: got nothing although the set has vertices %s" % (lab, [fmt(v) for v in mod.verts()]))
            return
        if lib.dimension() != mod.d:
            e.fail("dimension", "%s: dimension %s instead of %s" % (lab, lib.dimension(), mod.d))
        got = to_model(lib)
        if got.verts() != mod.verts():
            e.fail("wrong-set", "%s: the result has vertices %s, the definition gives %s" % (
                lab, [fmt(v) for v in got.verts()], [fmt(v) for v in mod.verts()]))
        self.member(e, lib, mod, rng, lab, 6)

    def op_contains(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        self.member(e, lib, m, rng, lab, 14)

    def op_vertices(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        if not b:
            return
        v = self.ask(e, lambda: lib.get_vertices(), op, lab)
        got = sorted(tuple(F(c) for c in x) for x in v)
        if got != m.verts():
            e.fail("vertices", "%s: vertices %s, expected %s (%s)" % (lab, [fmt(x) for x in got], [fmt(x) for x in m.verts()], show(m)))

    def op_edges(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        if not b or m.empty():
            return
        v = self.ask(e, lambda: lib.get_edges(), op, lab)
        got = {frozenset((tuple(F(c) for c in x), tuple(F(c) for c in y))) for x, y in v}
        if got != m.edges():
            e.fail("edges", "%s: edges %s, expected %s (%s)" % (lab, sorted(map(fedge, got)), sorted(map(fedge, m.edges())), show(m)))
        e.probe("edges_checked")

    def op_fulldim(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        if m.empty(b):
            return
        g = self.ask(e, lambda: lib.is_full_dim(), op, lab)
        w = m.dim(b) == m.d
        if bool(g) != w:
            e.fail("full-dim", "%s: full-dimensional %s, expected %s (%s)" % (lab, g, w, show(m)))

    def op_cons(self, e, op, sel, d, rng, lab):
        """The constraints themselves: together they hold exactly on the set, alone each on its half-space, and they are equal
        exactly when they are written alike."""
        lib, m, b = sel[0]
        cs = self.ask(e, lambda: lib.get_constraints(), op, lab)
        C = PT.Constraint
        for x in list(m.verts())[:3] + [tuple(small(rng, -2, 3) for _ in range(d)) for _ in range(4)]:
            one = []
            for c in cs:
                v = F(c.coefficients[0]) + sum(F(a) * y for a, y in zip(c.coefficients[1:], x))
                w = v == 0 if c.inequality_type == C.EQUALS else v > 0 if c.inequality_type == C.GREATER else v >= 0
                if bool(c.satisfies(list(x))) != w:
                    e.fail("constraint", "%s: %s at %s has the value %s" % (lab, c, fmt(x), v))
                one.append(w)
            if all(one) != m.contains(x):
                e.fail("constraint", "%s: the constraints together say %s of %s (%s)" % (lab, all(one), fmt(x), show(m)))
        if b and not m.empty(b):
            g = self.ask(e, lambda: lib.get_centroid(), op, lab)
            if not m.contains(tuple(F(v) for v in g)) or len(m.verts()) > 1 and m.dim(b) == d and not m.inside(tuple(F(v) for v in g)):
                e.fail("centroid", "%s: %s is not in the middle of the set (%s)" % (lab, fmt(g), show(m)))
        key = [(tuple(F(v) for v in c.coefficients), c.inequality_type) for c in cs]
        for c, (co, t) in list(zip(cs, key))[:4]:
            for co2, t2 in key[:4] + [(co, C.GREATER), (co, t), (co + (F(0),), t), (co[:-1] + (co[-1] + 1,), t), (co[:1] + tuple(2 * v for v in co[1:]), t)]:
                o = C(list(co2), t2)
                if (c == o) != ((co, t) == (co2, t2)) or c == o and hash(c) != hash(o):
                    e.fail("constraint", "%s: %s and %s compare as %s" % (lab, c, o, c == o))
        e.log("cons", key)

    def op_canon(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        self.ask(e, lambda: lib.canonicalize(), op, lab)
        self.member(e, lib, m, rng, lab)

    def op_copy(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        c = self.ask(e, lambda: copy.copy(lib), op, lab)
        self.member(e, c, m, rng, lab)
        if b:
            self.same(e, c, m, rng, lab)
        return [(c, m)]

    def op_equal(self, e, op, sel, d, rng, lab):
        (l1, m1, b1), (l2, m2, b2) = sel[0], sel[1]
        if not b1 or not b2:
            return
        g = self.ask(e, lambda: l1 == l2, op, lab)
        w = m1.verts() == m2.verts()
        if bool(g) != w:
            e.fail("equality", "%s: equal is %s for %s and %s" % (lab, g, show(m1), show(m2)))

    def op_rebuild(self, e, op, sel, d, rng, lab):
        """The same set built another way is the same polytope."""
        lib, m, b = sel[0]
        if not b or m.empty():
            return
        how = rng.choice(["V", "H"])
        if how == "V":
            vs = [list(x) for x in m.verts()]
            if len(vs) > 1 and rng.random() < 0.5:
                a, c = rng.sample(vs, 2)
                vs.append([(x + y) / 2 for x, y in zip(a, c)])
            rng.shuffle(vs)
            p = self.ask(e, lambda: PT.Polytope.from_V_rep(vs), op, lab)
        else:
            rows = [list(r) for r in m.cons() if any(r)]
            rng.shuffle(rows)
            p = self.ask(e, lambda: PT.Polytope(rows), op, lab)
        if not (self.ask(e, lambda: p == lib, op, lab)):
            e.fail("equality", "%s: rebuilding from %s gives an unequal polytope (%s)" % (lab, how, show(m)))
        return [(p, m)]

    def op_empty(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        for incl in rng.sample([True, False], 2):
            g = self.ask(e, lambda: lib.is_empty(include_boundary=incl), op, lab)
            w = m.empty(b) if incl else m.interior_empty(b)
            if bool(g) != w:
                e.fail("emptiness", "%s: is_empty(include_boundary=%s) is %s, expected %s (%s)" % (lab, incl, g, w, show(m)))

    def op_intersect(self, e, op, sel, d, rng, lab):
        k = rng.choice([2, 2, 3])
        ps = sel[:k]
        m = ps[0][1]
        for _, q, _b in ps[1:]:
            m = m.meet(q)
        if k == 2 and rng.random() < 0.5:
            fn = lambda: ps[0][0].intersect(ps[1][0])
        else:
            c = rng.random() < 0.5
            fn = lambda: PT.Polytope.intersection([p[0] for p in ps], canonicalize=c)
        r = self.ask(e, fn, op, lab)
        if any(p[2] for p in ps):
            if m.empty():
                if not r.is_empty():
                    e.fail("emptiness", "%s: the intersection of %s is empty but not reported so" % (lab, [show(p[1]) for p in ps]))
            else:
                self.same(e, r, m, rng, lab)
        self.member(e, r, m, rng, lab)
        return [(r, m)]

    def op_subset(self, e, op, sel, d, rng, lab):
        (l1, m1, b1), (l2, m2, b2) = sel[0], sel[1]
        if b1:
            w = m1.subset(m2)
        else:
            w = m1.boxed().subset(m2)
            if w and not m1.boxed(MQ.BIG * 100).subset(m2):
                return
        g = self.ask(e, lambda: l1.is_subset_of(l2), op, lab)
        if bool(g) != w:
            e.fail("subset", "%s: subset is %s, expected %s (%s in %s)" % (lab, g, w, show(m1), show(m2)))
        e.probe("subset_%s" % w)

    def op_cover(self, e, op, sel, d, rng, lab):
        l1, m1, b1 = sel[0]
        if not b1 or m1.interior_empty():
            return
        oth = [s for s in sel[1:]]
        if rng.random() < 0.5:
            # cut the polytope in two and offer the halves
            r = [small(rng, -1, 1)] + [F(rng.randint(-2, 2)) for _ in range(d)]
            if any(r[1:]):
                for s in (1, -1):
                    row = [s * v for v in r]
                    h = e.must(lambda: l1.intersect(PT.Polytope([row])), lab)
                    oth.insert(rng.randrange(len(oth) + 1), (h.value, m1.meet(MP(d, [row])), True))
                if rng.random() < 0.4:
                    oth.pop(rng.randrange(len(oth)))
        if sum(len(o[1].rows) for o in oth) > 30:
            oth = oth[:3]
        w = m1.covered([o[1] for o in oth])
        g = self.ask(e, lambda: l1.is_covered_by([o[0] for o in oth]), op, lab)
        if bool(g) != w:
            e.fail("cover", "%s: covered is %s, expected %s (%s by %s)" % (lab, g, w, show(m1), [show(o[1]) for o in oth]))
        e.probe("cover_%s" % w)

    def op_union(self, e, op, sel, d, rng, lab):
        ps = sel[: rng.choice([2, 2, 3])]
        if rng.random() < 0.6:
            # two or three slices of one polytope, possibly with one missing
            l1, m1, b1 = sel[0]
            if not b1:
                return
            r = [small(rng, -1, 1)] + [F(rng.randint(-2, 2)) for _ in range(d)]
            if any(r[1:]):
                ps = []
                for s, off in ((1, 0), (-1, rng.choice([0, 0, 0, F(1, 2), -F(1, 3)]))):
                    row = [s * v for v in r]
                    row[0] += off
                    h = e.must(lambda: l1.intersect(PT.Polytope([row])), lab)
                    ps.append((h.value, m1.meet(MP(d, [row])), True))
                if rng.random() < 0.4 and len(sel) > 1:
                    ps.append(sel[1])
        if any(not p[2] or p[1].empty() for p in ps) or sum(len(p[1].rows) for p in ps) > 26:
            return
        if all(p[1].interior_empty() for p in ps):
            return                          # boundaries are ignored: nothing is promised for flat sets only
        g = self.ask(e, lambda: PT.Polytope.try_union([p[0] for p in ps]), op, lab)
        ms = [p[1] for p in ps]
        if g is not None:
            R = to_model(g)
            if not R.bounded():
                e.fail("union", "%s: the union of bounded polytopes %s is unbounded" % (lab, [show(m) for m in ms]))
            for m in ms:
                if not m.subset(R):
                    e.fail("union", "%s: the union %s misses a part of %s" % (lab, show(R), show(m)))
            if not R.covered(ms):
                e.fail("union", "%s: the union %s is larger than the parts %s" % (lab, show(R), [show(m) for m in ms]))
            self.member(e, g, R, rng, lab, 6)
            e.probe("union_found")
            return [(g, R)]
        if all(m.dim() == d for m in ms):
            env = []
            for i, m in enumerate(ms):
                env += [r for r in m.rows if all(all(MQ.ev(r, v) >= 0 for v in q.verts()) for q in ms)]
            E = MP(d, env)
            if E.bounded() and E.covered(ms):
                e.fail("union", "%s: %s have the convex union %s but none was found" % (lab, [show(m) for m in ms], show(E)))
            e.probe("union_refused")

    def op_minus(self, e, op, sel, d, rng, lab):
        (l1, m1, b1), (l2, m2, b2) = sel[0], sel[1]
        if not b1 or m1.interior_empty() or len(m2.rows) > 9:
            return
        parts = self.ask(e, lambda: l1.set_minus(l2, simplify=rng.random() < 2), op, lab)
        ms = [to_model(p) for p in parts]
        live = [m for m in ms if not m.interior_empty()]
        for i, m in enumerate(ms):
            if not m.subset(m1):
                e.fail("difference", "%s: a part of %s minus %s is not inside the first" % (lab, show(m1), show(m2)))
            if not m.meet(m2).interior_empty():
                e.fail("difference", "%s: a part of %s minus %s meets the second" % (lab, show(m1), show(m2)))
            for q in ms[:i]:
                if not m.meet(q).interior_empty():
                    e.fail("difference", "%s: two parts of %s minus %s overlap" % (lab, show(m1), show(m2)))
        if not m1.covered(live + [m2]):
            e.fail("difference", "%s: the parts of %s minus %s leave a gap" % (lab, show(m1), show(m2)))
        e.probe("minus_parts", len(ms))
        return [(p, m) for p, m in zip(parts, ms)][:2]

    # maps -------------------------------------------------------------------
    def op_substitute(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        if d < 2 or not b:
            return
        ks = rng.sample(range(d), rng.randint(1, d - 1))
        vs = m.verts()
        vals = {}
        for k in ks:
            if vs and rng.random() < 0.7:
                a, c = rng.choice(vs), rng.choice(vs)
                vals[k] = (a[k] + c[k]) / 2
            else:
                vals[k] = small(rng, -2, 2)
        keep = [i for i in range(d) if i not in vals]

        def sub(r):
            return tuple([r[0] + sum(r[k + 1] * v for k, v in vals.items())] + [r[i + 1] for i in keep])
        mm = MP(len(keep), [sub(r) for r in m.rows], [sub(r) for r in m.eqs])
        p = self.ask(e, lambda: lib.substitute(vals), op, lab)
        if p.dimension() != len(keep):
            e.fail("dimension", "%s: substituting %s gives dimension %s" % (lab, vals, p.dimension()))
        self.member(e, p, mm, rng, lab)
        if bool(p.is_empty()) != mm.empty():
            e.fail("emptiness", "%s: substituting %s into %s: empty is %s" % (lab, vals, show(m), p.is_empty()))
        if bool(p.is_empty(include_boundary=False)) != mm.interior_empty():
            e.fail("emptiness", "%s: substituting %s into %s: interior empty is %s" % (
                lab, vals, show(m), p.is_empty(include_boundary=False)))
        if not mm.empty():
            self.same(e, p, mm, rng, lab)
        e.probe("substituted")

    def op_project(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        if not b:
            return
        ks = sorted(rng.sample(range(d), rng.randint(1, d)))
        p = self.ask(e, lambda: lib.project(set(ks)), op, lab)
        pts = [tuple(v[k] for k in ks) for v in m.verts()]
        if not pts:
            if p is not None and not p.is_empty():
                e.fail("projection", "%s: the projection of an empty polytope is not empty" % lab)
            return
        pm = VModel(pts, len(ks))
        self.same(e, p, pm, rng, lab)
        got = sorted(tuple(F(c) for c in x) for x in p.get_vertices())
        if got != pm.verts():
            e.fail("vertices", "%s: the projection lists vertices %s, expected %s" % (lab, [fmt(x) for x in got], [fmt(x) for x in pm.verts()]))
        e.probe("projected")
        if len(ks) == d:
            return [(p, pm)]

    def op_lift(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        if d > 2:
            return
        var = list(range(d))
        rng.shuffle(var)
        lo = small(rng, -1, 1)
        lim = (lo, lo + rng.choice([F(1), F(1, 2), F(0), F(2)]))
        pos = rng.randrange(d + 1)
        full = var[:pos] + [lim] + var[pos:]
        rows, eqs = [], []
        for src, dst in ((m.rows, rows), (m.eqs, eqs)):
            for r in src:
                dst.append(tuple([r[0]] + [(r[x + 1] if isinstance(x, int) else F(0)) for x in full]))
        for c, s in ((-lim[0], 1), (lim[1], -1)):
            r = [F(0)] * (d + 2)
            r[0], r[pos + 1] = c, F(s)
            rows.append(tuple(r))
        mm = MP(d + 1, rows, eqs)
        p = self.ask(e, lambda: lib.lift(list(full)), op, lab)
        self.member(e, p, mm, rng, lab)
        if b:
            if mm.empty():
                if not p.is_empty():
                    e.fail("emptiness", "%s: lifting an empty polytope gives a non-empty one" % lab)
            else:
                self.same(e, p, mm, rng, lab)
        e.probe("lifted")

    def op_scale(self, e, op, sel, d, rng, lab):
        lib, m, b = sel[0]
        if rng.random() < 0.6:
            fs = [rng.choice([F(1), F(2), F(3), F(1, 2), F(2, 3)]) for _ in range(d)]
            extra = []
            fn = lambda: lib.scale_all(list(fs))
        else:
            i = rng.randrange(d)
            f = rng.choice([F(2), F(3), F(1, 2)])
            fs = [F(1)] * d
            fs[i] = f
            extra = []
            if rng.random() < 0.5:
                r = [F(0)] * (d + 1)
                r[0], r[i + 1] = small(rng, 0, 2), F(-1)
                extra = [r]
            fn = lambda: lib.scale(i + 1, f, [list(r) for r in extra])

        def sc(r):
            return tuple([r[0]] + [r[k + 1] / fs[k] for k in range(d)])
        mm = MP(d, [sc(r) for r in m.rows] + [tuple(r) for r in extra], [sc(r) for r in m.eqs])
        p = self.ask(e, fn, op, lab)
        self.member(e, p, mm, rng, lab)
        if b:
            if mm.empty():
                if not p.is_empty():
                    e.fail("emptiness", "%s: scaling gives a non-empty polytope instead of an empty one" % lab)
            else:
                self.same(e, p, mm, rng, lab)
        e.probe("scaled")
        return [(p, mm)]


def fmt(x):
    return "(" + ", ".join(str(v) for v in x) + ")"


def fedge(f):
    return " - ".join(fmt(x) for x in sorted(f))


def show(m):
    v = m.verts()
    s = "vertices " + " ".join(fmt(x) for x in v[:8])
    if len(v) <= 1:
        s += " rows " + " ".join(fmt(r) for r in m.rows[:8]) + " equalities " + " ".join(fmt(r) for r in m.eqs)
    return s


class PolyHistory(PolyBase):
    pid = "P01"
    mix = {"contains": 2, "vertices": 3, "edges": 4, "fulldim": 2, "canon": 2, "copy": 2, "equal": 2, "rebuild": 2,
           "cons": 1, "empty": 2, "intersect": 2, "scale": 1}
    rule = ("seeded histories of 3-10 queries and derivations over up to 4 polytopes in dimension 1-3 built from "
            "half-spaces, boxes, vertices and equalities (redundant rows, hidden equalities, flat and empty sets), in any "
            "order, with LP and double-description solver failures and interruptions followed by a retry; distinct by event log")


class PolyDecisions(PolyBase):
    pid = "P02"
    mix = {"empty": 2, "subset": 4, "cover": 4, "union": 5, "minus": 4, "intersect": 2, "fulldim": 1, "edges": 1}
    rule = ("seeded histories of emptiness, subset, cover, union, difference and intersection decisions over polytopes in "
            "dimension 1-3, cut and overlapping so that both answers occur, with solver failures and interruptions followed "
            "by a retry; distinct by event log")


class PolyMaps(PolyBase):
    pid = "P03"
    dims = [1, 2, 2, 3]
    mix = {"substitute": 3, "project": 3, "lift": 3, "scale": 3, "fulldim": 1, "vertices": 1, "intersect": 1, "empty": 1}
    rule = ("seeded histories of substituting, projecting, lifting and scaling polytopes in dimension 1-3, interleaved with "
            "cache-filling queries, solver failures and interruptions followed by a retry; distinct by event log")

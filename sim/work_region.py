"""G01 regions as boolean combinations of polytopes, G02 maps of regions."""
import copy
import random

from work import *  # noqa: F401,F403
from work import Workload, F, gen_interrupt, gen_solver, gen_console, fr, un
import env
import models_poly as MQ
from models_poly import MP
from work_poly import VModel, gen_rows, F_rows, small, fmt, to_model
import polytope as PT
import region as RG

T = RG.Region_Type
NAMES = {"I": T.INTERSECT, "U": T.UNION, "D": T.DISJOINT_UNION, "P": T.POLYTOPE, "C": T.COMPLEMENT}


class RM:
    """Reference region: a boolean tree of reference polytopes."""

    def __init__(self, k, kids=None, mp=None, dis=True):
        self.k, self.kids, self.mp, self.dis = k, kids or [], mp, dis

    def inside(self, x):
        if self.k == "P":
            return self.mp.contains(x)
        if self.k == "C":
            return not self.kids[0].inside(x)
        if self.k == "I":
            return all(c.inside(x) for c in self.kids)
        return any(c.inside(x) for c in self.kids)

    def leaves(self):
        if self.k == "P":
            return [self.mp]
        return [m for c in self.kids for m in c.leaves()]

    def has(self, ks):
        return self.k in ks or any(c.has(ks) for c in self.kids)

    def disjoint(self):
        return self.dis and all(c.disjoint() for c in self.kids)

    def pieces(self):
        """Upper bound for the number of polytopes of its disjoint form."""
        if self.k == "P":
            return 1
        n = [c.pieces() for c in self.kids] or [0]
        if self.k == "I":
            p = 1
            for v in n:
                p *= v
            return p
        return sum(n)

    def map(self, f, dis=None):
        if self.k == "P":
            return RM("P", mp=f(self.mp))
        return RM(self.k, [c.map(f, dis) for c in self.kids], dis=self.dis if dis is None else dis)

    def show(self):
        if self.k == "P":
            v = self.mp.verts()
            return "[" + " ".join(fmt(x) for x in v[:6]) + "]"
        return self.k + "(" + ", ".join(c.show() for c in self.kids[:6]) + ")"


def leaf_rows(rng, d):
    """Rows of a bounded polytope."""
    rows = []
    for i in range(d):
        lo = small(rng, -2, 1)
        w = rng.choice([F(1, 2), F(1), F(1), F(2), F(2), F(3)] + ([F(0)] if rng.random() < 0.15 else []))
        for c, s in ((-lo, 1), (lo + w, -1)):
            r = [F(0)] * (d + 1)
            r[0], r[i + 1] = c, F(s)
            rows.append(r)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        r = [small(rng, -1, 2)] + [F(rng.randint(-2, 2)) for _ in range(d)]
        if any(r[1:]):
            rows.append(r)
    rng.shuffle(rows)
    return [[fr(v) for v in r] for r in rows]


def gen_tree(rng, d, depth, kinds):
    k = rng.choice(kinds) if depth > 0 else "P"
    if k == "P":
        return {"k": "P", "rows": leaf_rows(rng, d), "canon": rng.random() < 0.5}
    if k == "H":        # union of half-spaces within a box, as disjoint pieces
        hs = []
        for _ in range(rng.randint(1, 4)):
            h = [small(rng, -1, 1)] + [F(rng.randint(-2, 2)) for _ in range(d)]
            if not any(h[1:]):
                h[1] = F(1)
            hs.append([fr(v) for v in h])
        return {"k": "H", "rows": leaf_rows(rng, d), "hs": hs}
    if k == "C":
        return {"k": "C", "kids": [gen_tree(rng, d, depth - 1, kinds)]}
    if k == "D":        # disjoint by construction: slabs along one axis
        i = rng.randrange(d)
        n = rng.randint(1, 4)
        cuts = sorted({small(rng, -2, 3) for _ in range(n + 1)})
        kids = []
        for a, b in zip(cuts, cuts[1:]):
            if rng.random() < 0.2:
                continue
            rows = F_rows(leaf_rows(rng, d))
            for c, s in ((-a, 1), (b, -1)):
                r = [F(0)] * (d + 1)
                r[0], r[i + 1] = c, F(s)
                rows.append(r)
            kids.append({"k": "P", "rows": [[fr(v) for v in r] for r in rows], "canon": rng.random() < 0.5})
        if not kids:
            return gen_tree(rng, d, 0, kinds)
        rng.shuffle(kids)
        return {"k": "D", "kids": kids}
    return {"k": k, "kids": [gen_tree(rng, d, depth - 1, kinds) for _ in range(rng.choice([1, 2, 2, 2, 3]))]}


def size(t):
    return 1 + sum(size(c) for c in t.get("kids", []))


class RegionBase(Workload):
    cases = {"quick": 4000, "thorough": 60000}
    real = ["region.py", "helpers/region_helper.py", "polytope.py", "pycddlib"]
    stubs = ["clock", "console", "matplotlib"]
    mix = {}

    def generate(self, rng, tier):
        d = rng.choice([1, 1, 2, 2, 2, 3])
        if self.pid == "G01" and rng.random() < 0.012:
            return self.gen_many(rng)
        trees = []
        for _ in range(rng.randint(1, 3)):
            kinds = rng.choice([["I", "D", "H", "P", "P"], ["I", "D", "H", "P"], ["I", "U", "D", "C", "P", "H"], ["U", "P"], ["I", "H"]])
            t = gen_tree(rng, d, rng.choice([1, 1, 2, 2, 3] if d < 3 else [1, 1, 2]), kinds)
            trees.append(t if size(t) <= 16 else gen_tree(rng, d, 1, ["I", "D", "H"]))
        ops = []
        kinds = [k for k, w in self.mix.items() for _ in range(w)]
        for _ in range(rng.randint(2, 7)):
            op = {"op": rng.choice(kinds), "i": rng.randrange(5), "js": [rng.randrange(5) for _ in range(rng.choice([1, 1, 2]))],
                  "r": rng.getrandbits(32), "fault": None}
            if rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["LinProg", "LinProg", "Polyhedron"], 12), gen_interrupt(rng, 600)])
            ops.append(op)
        return {"d": d, "trees": trees, "ops": ops, "clock": rng.choice([None, None, [0.001], [-3600.0, 5.0], [86400.0, -86400.0, 0.0]])}

    def gen_many(self, rng):
        """One long intersection: enough factors and pieces for the periodic simplification."""
        n = rng.randint(102, 112)
        x, kids = F(-2), []
        for _ in range(n):
            w = F(rng.randint(1, 3), 100)
            kids.append({"k": "P", "rows": [[fr(-x), "1"], [fr(x + w), "-1"]], "canon": False})
            x += w + rng.choice([F(0), F(1, 100), F(1, 100), F(1, 50)])
        tree = {"k": "I", "kids": [{"k": "D", "kids": kids}]}
        for i in range(rng.randint(20, 22)):
            lo, hi = F(-3), x + 1
            if rng.random() < 0.1:
                lo = F(-2) + F(rng.randint(0, 3), 200)
            tree["kids"].append({"k": "P", "rows": [[fr(-lo), "1"], [fr(hi), "-1"]], "canon": False})
        op = {"op": rng.choice(["disjoint", "track"]), "i": 0, "js": [0], "r": rng.getrandbits(32), "fault": None}
        return {"d": 1, "trees": [tree], "ops": [op], "clock": None, "many": 1}

    # -------------------------------------------------------------- building
    def build(self, e, t, d, lab):
        if t["k"] == "P":
            rows = F_rows(t["rows"])
            return RG.Region.from_polytope(PT.Polytope(rows, canonicalize=t["canon"])), RM("P", mp=MP(d, rows))
        if t["k"] == "H":
            box, hs = F_rows(t["rows"]), F_rows(t["hs"])
            r = RG.Region.from_union_of_halfplanes([list(h) for h in hs], [list(b) for b in box])
            return r, RM("I", [RM("P", mp=MP(d, box)), RM("U", [RM("P", mp=MP(d, [h])) for h in hs])], dis=True)
        kids = [self.build(e, c, d, lab) for c in t["kids"]]
        R = RG.Region
        if t["k"] == "C":
            return R.complement(kids[0][0]), RM("C", [kids[0][1]])
        f = {"I": R.intersect, "U": R.union, "D": R.disjoint_union}[t["k"]]
        return f([k[0] for k in kids]), RM(t["k"], [k[1] for k in kids], dis=t["k"] != "U")

    def run(self, case, e):
        d = case["d"]
        env.W.clock_steps = case.get("clock")
        O = []

        def put(r, m):
            if r is not None:
                O.append((r, m))
                if len(O) > 8:
                    O.pop(0)
        for n, t in enumerate(case["trees"]):
            o = e.must(lambda: self.build(e, t, d, ""), "build#%d" % n)
            put(*o.value)
            self.equal(e, o.value[0], o.value[1], d, random.Random(n), "build#%d" % n, 8)
        for n, op in enumerate(case["ops"]):
            rng = random.Random(op["r"])
            lab = "%s#%d" % (op["op"], n)
            sel = [O[op["i"] % len(O)]] + [O[j % len(O)] for j in op["js"]]
            before = str(sel[0][0])
            res = getattr(self, "op_" + op["op"])(e, op, sel, d, rng, lab)
            if op["op"] not in ("simplify",) and str(sel[0][0]) != before:
                e.fail("operand-changed", "%s changed its operand from %s to %s" % (lab, before[:300], str(sel[0][0])[:300]))
            for r, m in res or []:
                if sum(1 for _ in m.leaves()) <= 24:
                    put(r, m)
            m0 = sel[0][1]
            e.cover(op["op"], d, m0.k, min(8, len(m0.leaves())), m0.disjoint(), m0.has("C"), m0.has("U"))
            e.probe("nontrivial")

    def ask(self, e, fn, op, lab, refused=()):
        r = e.call(fn, op["fault"], lab)
        if r.kind == "fault":
            e.probe("faulted_then_retried")
            r = e.call(fn, None, lab + "-retry")
        if not r.ok and isinstance(r.exc, refused or ()):
            e.probe("refused")
            return None, True
        if not r.ok:
            e.must(fn, lab + "-again")      # reports the error
            e.fail("unstable", "%s raised %s once and then returned" % (lab, type(r.exc).__name__))
        return r.value, False

    # -------------------------------------------------------------- judging
    def points(self, rng, n, d, m, extra=()):
        ps = [p for p in m.leaves()] + list(extra)
        return MQ.cell_points(ps, rng, n, d)

    def equal(self, e, lib, m, d, rng, lab, n=14, extra=()):
        """Membership agrees off the boundaries, and (for direct trees) the region contains what it should."""
        for x in self.points(rng, n, d, m, extra):
            g, w = lib.contains(list(x)), m.inside(x)
            if bool(g) != w:
                e.fail("membership", "%s: membership of %s is %s, by definition %s for %s" % (lab, fmt(x), g, w, m.show()[:400]))

    # ----------------------------------------------------------- operations
    def op_contains(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        self.equal(e, lib, m, d, rng, lab, 20)

    def op_print(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        how = rng.randrange(4)
        var = "abcd"[:d]
        fn = [lambda: str(lib), lambda: repr(lib), lambda: lib.to_str(use_indentation=False),
              lambda: lib.to_str(use_indentation=rng.random() < 0.5, variables=var)][how]
        s, _ = self.ask(e, fn, op, lab)
        if not isinstance(s, str):
            e.fail("print", "%s: printing a region gives %r" % (lab, type(s)))

    def op_copy(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        c, _ = self.ask(e, lambda: copy.copy(lib), op, lab)
        self.equal(e, c, m, d, rng, lab)
        c.set_label("copy%d" % rng.randrange(1000))
        for p in polys_of(lib):
            if str(getattr(p, "label", "")).startswith("copy"):
                if not any(p is q for q in polys_of(c)):
                    continue
                e.fail("shared-label", "%s: labelling a copy of a region labels the original's polytopes" % lab)
        return [(RG.Region.intersect([c, c]), RM("I", [m, m]))] if rng.random() < 0.1 and m.pieces() < 5 else []

    def op_combine(self, e, op, sel, d, rng, lab):
        k = rng.choice(["U", "I", "I", "C"])
        if k == "C":
            lib, m = sel[0]
            r, _ = self.ask(e, lambda: RG.Region.complement(lib), op, lab)
            res = (r, RM("C", [m]))
        else:
            f = {"U": RG.Region.union, "I": RG.Region.intersect}[k]
            r, _ = self.ask(e, lambda: f([s[0] for s in sel]), op, lab)
            res = (r, RM(k, [s[1] for s in sel], dis=k == "I"))
        self.equal(e, res[0], res[1], d, rng, lab)
        return [res]

    def op_disjoint(self, e, op, sel, d, rng, lab, track=False):
        lib, m = sel[0]
        if m.pieces() > 60 and not (d == 1 and len(m.leaves()) > 90):
            return
        verbose = rng.random() < 0.3
        if verbose and op["fault"] is None and rng.random() < 0.4:
            op = dict(op, fault=gen_console(rng, 6))
        names = {}
        if track:
            # one label per factor, on polytopes of its own
            if m.k == "I" and lib.region_type == T.INTERSECT and not m.has("C") and len(lib.child) == len(m.kids):
                parts = [copy_region(c) for c in lib.child]
                lib = RG.Region.intersect(parts)
                for i, c in enumerate(parts):
                    c.set_label("f%d" % i)
                    names["f%d" % i] = m.kids[i]
            else:
                lib = copy_region(lib)
                lib.set_label("f0")
                names["f0"] = m
        r, refused = self.ask(e, lambda: lib.as_disjoint_union(verbose=verbose, track_dependencies=track), op, lab,
                              refused=NotImplementedError if m.has(("C", "U")) or lib_has_union(lib) else ())
        if refused:
            return
        ps = [c.child for c in r.child]
        if r.region_type != T.DISJOINT_UNION or not all(isinstance(p, PT.Polytope) for p in ps):
            e.fail("form", "%s: the disjoint form is not a list of polytopes" % lab)
        ms = [to_model(p) for p in ps]
        self.equal(e, r, m, d, rng, lab, 24 if len(ms) < 60 else 40, [] if len(ms) >= 60 else ms)
        if m.disjoint() and len(ms) <= 20:
            for i, a in enumerate(ms):
                for b in ms[:i]:
                    if not a.meet(b).interior_empty():
                        e.fail("overlap", "%s: two pieces of the disjoint form overlap: %s" % (lab, m.show()[:300]))
        e.probe("disjoint_forms")
        e.probe("pieces", len(ms))
        if track and ps:
            deps = set()
            for p in ps:
                got = getattr(p, "dependencies", None)
                if not isinstance(got, (set, frozenset)) or not got or not got <= set(names):
                    e.fail("labels", "%s: a piece has dependencies %r, the labels are %s" % (lab, got, sorted(names)))
                deps |= got
            imp = [names[x] for x in sorted(deps)]
            for x in self.points(rng, 40, d, m, [] if len(ms) >= 60 else ms):
                if all(c.inside(x) for c in imp) and not m.inside(x):
                    e.fail("labels-too-few", "%s: the pieces name only %s, which do not exclude %s, but the result does (%s)" % (
                        lab, sorted(deps), fmt(x), m.show()[:400]))
            e.probe("tracked")
            if len(deps) < len(names):
                e.probe("tracked_proper_subset")
            for p in polys_of(lib):
                if hasattr(p, "dependencies"):
                    e.fail("operand-changed", "%s: dependencies were written into the operand" % lab)
        if len(ms) <= 8:
            return [(r, RM("D", [RM("P", mp=q) for q in ms], dis=m.disjoint()))]

    def op_track(self, e, op, sel, d, rng, lab):
        return self.op_disjoint(e, op, sel, d, rng, lab, True)

    def op_simplify(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        if len(m.leaves()) > 14:
            return
        c = copy_region(lib)
        r = e.must(lambda: c.simplify(), lab, op["fault"])
        self.equal(e, c, m, d, rng, lab)
        if not r.ok:
            e.must(lambda: c.simplify(), lab + "-retry")
            self.equal(e, c, m, d, rng, lab + "-retry")
        if c.region_type == T.DISJOINT_UNION and m.disjoint():
            ms = [to_model(p) for p in polys_of(c)]
            if len(ms) <= 14:
                for i, a in enumerate(ms):
                    for b in ms[:i]:
                        if not a.meet(b).interior_empty():
                            e.fail("overlap", "%s: simplifying a disjoint union makes pieces overlap" % lab)
        e.probe("simplified")
        return [(c, m if m.k != "D" else RM("D", m.kids, dis=m.dis))]

    def op_subset(self, e, op, sel, d, rng, lab):
        A, B = sel[0], sel[1]
        if rng.random() < 0.5 and A[1].k == "I" and A[0].region_type == T.INTERSECT:      # likely inside
            B = (A[0].child[0], A[1].kids[0]) if isinstance(A[0].child, list) and len(A[0].child) == len(A[1].kids) else B
        if rng.random() < 0.5:
            if A[1].has(("C", "I")) or not all(p.verts() for p in A[1].leaves()):
                return
            B = (RG.Region.union([A[0], B[0]]), RM("U", [A[1], B[1]]))
        if rng.random() < 0.5 and not A[1].has(("C", "I")) and 1 <= len(A[1].leaves()) <= 4:
            # A cut into halves, one of them possibly missing or moved
            mods = []
            for p in A[1].leaves():
                h = [small(rng, -1, 1)] + [F(rng.randint(-2, 2)) for _ in range(d)]
                if not any(h[1:]) or p.eqs:
                    mods.append(p)
                    continue
                mods.append(MP(d, p.rows + [tuple(h)]))
                if rng.random() < 0.7:
                    h[0] += rng.choice([F(0), F(0), F(0), F(1, 10), F(-1, 10)])
                    mods.append(MP(d, p.rows + [tuple(-v for v in h)]))
            mods = [p for p in mods if not p.interior_empty()] or mods[:1]
            rng.shuffle(mods)
            if any(p.eqs for p in mods):
                return
            B = (RG.Region.union([RG.Region.from_polytope(PT.Polytope([list(r) for r in p.rows])) for p in mods]),
                 RM("U", [RM("P", mp=p) for p in mods]))
        if len(A[1].leaves()) + len(B[1].leaves()) > 12:
            return
        if any(p.interior_empty() for p in A[1].leaves() + B[1].leaves() if p.bounded()) or A[1].has("C") or B[1].has("C"):
            return
        v, refused = self.ask(e, lambda: A[0].is_subset_of(B[0]), op, lab, refused=NotImplementedError)
        if refused:
            return
        w = None
        for x in self.points(rng, 60, d, RM("U", [A[1], B[1]])):
            if A[1].inside(x) and not B[1].inside(x):
                w = x
                break
        if v and w is not None:
            e.fail("subset", "%s: said to be a subset although %s is only in the first (%s in %s)" % (lab, fmt(w), A[1].show()[:200], B[1].show()[:200]))
        e.probe("subset_" + str(bool(v)))
        if not v and w is None:
            a, b = dnf(A[1]), dnf(B[1])
            if a is not None and b is not None and all(p.covered(b) for p in a):
                e.fail("subset", "%s: said not to be a subset although it is (%s in %s)" % (lab, A[1].show()[:200], B[1].show()[:200]))

    # maps
    def op_substitute(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        if d < 2:
            return
        ks = rng.sample(range(d), rng.randint(1, d - 1))
        vals = {k: small(rng, -2, 3) + rng.choice([F(0), F(0), F(1, 7)]) for k in ks}
        keep = [i for i in range(d) if i not in vals]

        def sub(r):
            return tuple([r[0] + sum(r[k + 1] * v for k, v in vals.items())] + [r[i + 1] for i in keep])
        mm = m.map(lambda p: MP(len(keep), [sub(r) for r in p.rows], [sub(r) for r in p.eqs]), dis=False)
        r, _ = self.ask(e, lambda: lib.substitute(dict(vals)), op, lab)
        self.equal(e, r, mm, len(keep), rng, lab)
        for x in self.points(rng, 6, len(keep), mm):
            full = [None] * d
            for k, v in vals.items():
                full[k] = v
            for k, v in zip(keep, x):
                full[k] = v
            if bool(r.contains(list(x))) != m.inside(tuple(full)):
                e.fail("membership", "%s: the slice at %s disagrees with the region at %s" % (lab, vals, fmt(full)))
        self.reuse(e, r, mm, len(keep), rng, lab)

    def op_scale(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        fs = [rng.choice([F(1), F(2), F(3), F(1, 2), F(2, 3)]) for _ in range(d)]

        def sc(r):
            return tuple([r[0]] + [r[k + 1] / fs[k] for k in range(d)])
        mm = m.map(lambda p: MP(d, [sc(r) for r in p.rows], [sc(r) for r in p.eqs]))
        r, _ = self.ask(e, lambda: lib.scale_all(list(fs)), op, lab)
        self.equal(e, r, mm, d, rng, lab)
        return [(r, mm)]

    def op_lift(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        if d > 2:
            return
        var = list(range(d))
        rng.shuffle(var)
        lo = small(rng, -1, 1)
        lim = (lo, lo + rng.choice([F(1), F(1, 2), F(2)]))
        pos = rng.randrange(d + 1)
        full = var[:pos] + [lim] + var[pos:]
        if d == 1 and rng.random() < 0.3:
            full.insert(rng.randrange(3), (lim[0] - 1, lim[1]))
        N = len(full)
        extra = []
        for i, v in enumerate(full):
            if isinstance(v, tuple):
                for c, s in ((-v[0], 1), (v[1], -1)):
                    r = [F(0)] * (N + 1)
                    r[0], r[i + 1] = c, F(s)
                    extra.append(tuple(r))

        def li(r):
            return tuple([r[0]] + [(r[x + 1] if isinstance(x, int) else F(0)) for x in full])
        mm = m.map(lambda p: MP(N, [li(r) for r in p.rows], [li(r) for r in p.eqs]))
        mm = RM("I", [mm, RM("P", mp=MP(N, extra))])
        r, refused = self.ask(e, lambda: lib.lift(list(full)), op, lab, refused=NotImplementedError if m.has("C") else ())
        if refused:
            return
        self.equal(e, r, mm, N, rng, lab, 20)
        if m.disjoint() and not m.has(("C", "U")) and m.pieces() <= 8:
            self.reuse(e, r, mm, N, rng, lab)

    def op_project(self, e, op, sel, d, rng, lab):
        lib, m = sel[0]
        if len(m.leaves()) > 12 or not all(p.bounded() for p in m.leaves()):
            if rng.random() < 0.5 or m.has("C"):
                return
            if m.pieces() > 20 or m.has("U"):
                return
            o = e.must(lambda: lib.as_disjoint_union(), lab + "-disjoint")
            lib, m = o.value, RM("D", [RM("P", mp=to_model(p)) for p in polys_of(o.value)])
            if len(m.kids) > 12 or not m.kids:
                return
        ks = sorted(rng.sample(range(d), rng.randint(1, d)))

        def pr(m):
            if m.k == "P":
                v = m.mp.verts()
                return RM("P", mp=VModel([tuple(x[k] for k in ks) for x in v], len(ks))) if v else None
            kids = [pr(c) for c in m.kids]
            if m.k == "I" and any(c is None for c in kids):
                return None
            kids = [c for c in kids if c is not None]
            if not kids:
                return None
            return RM("I" if m.k == "I" else "U", kids, dis=False)
        if m.has("C"):
            mm = None
        else:
            mm = pr(m)
        r, refused = self.ask(e, lambda: lib.project(set(ks)), op, lab, refused=NotImplementedError if m.has("C") else ())
        if refused:
            return
        if m.has("C"):
            e.fail("projection", "%s: a complement was projected" % lab)
        e.probe("projected")
        if mm is None:
            if r is not None:
                for x in MQ.cell_points([], rng, 10, len(ks)):
                    if r.contains(list(x)):
                        e.fail("projection", "%s: the projection of an empty region contains %s" % (lab, fmt(x)))
            return
        if r is None:
            e.fail("projection", "%s: the projection of a non-empty region is missing: %s" % (lab, m.show()[:300]))
        self.equal(e, r, mm, len(ks), rng, lab, 20)
        # the shadow of every point is in the projection
        for x in self.points(rng, 8, d, m):
            if m.inside(x) and not r.contains([x[k] for k in ks]):
                e.fail("projection", "%s: %s is in the region but its projection is not" % (lab, fmt(x)))
        if r.region_type == T.UNION and all(c.region_type == T.POLYTOPE for c in r.child) and len(r.child) <= 8:
            e.must(lambda: r.simplify(), lab + "-simplify")
            self.equal(e, r, mm, len(ks), rng, lab + "-simplify", 20)

    def reuse(self, e, r, mm, d, rng, lab):
        """The result behaves like any other region."""
        if mm.has(("C", "U")) or mm.pieces() > 12 or lib_has_union(r):
            return
        o = e.must(lambda: r.as_disjoint_union(), lab + "-disjoint")
        self.equal(e, o.value, mm, d, rng, lab + "-disjoint", 10)


def dnf(m):
    """Bounded full-dimensional polytopes whose union is m (up to boundaries), or None."""
    if m.k == "P":
        return [m.mp] if m.mp.bounded() else None
    ks = [dnf(c) for c in m.kids]
    if any(k is None for k in ks):
        return None
    if m.k == "I":
        cur = ks[0]
        for k in ks[1:]:
            cur = [a.meet(b) for a in cur for b in k if not a.meet(b).interior_empty()]
        return cur
    return [p for k in ks for p in k]


def polys_of(r):
    if isinstance(r, PT.Polytope):
        return [r]
    if isinstance(r.child, list):
        return [p for c in r.child for p in polys_of(c)]
    return polys_of(r.child)


def lib_has_union(r):
    if isinstance(r, PT.Polytope):
        return False
    if r.region_type in (T.UNION, T.COMPLEMENT):
        return True
    return any(lib_has_union(c) for c in r.child) if isinstance(r.child, list) else False


def copy_region(r):
    """A region with polytopes of its own, made by the harness from public parts."""
    if isinstance(r, PT.Polytope):
        return copy.copy(r)
    if isinstance(r.child, list):
        return RG.Region(r.region_type, [copy_region(c) for c in r.child])
    return RG.Region(r.region_type, copy_region(r.child))


class Regions(RegionBase):
    pid = "G01"
    mix = {"contains": 2, "disjoint": 6, "track": 4, "simplify": 3, "combine": 3, "copy": 1, "subset": 5, "print": 1}
    rule = ("seeded histories of 2-7 operations (membership, disjoint form with and without dependency tracking, simplification, "
            "union, intersection, complement, copying, inclusion, printing) over boolean trees of polytopes in dimension 1-3, with "
            "solver failures, interruptions, console failures and clock jumps, each followed by a retry; distinct by event log")


class RegionMaps(RegionBase):
    pid = "G02"
    mix = {"substitute": 4, "scale": 3, "lift": 4, "project": 5, "disjoint": 1, "combine": 1}
    rule = ("seeded histories of slicing, scaling, lifting and projecting boolean trees of polytopes in dimension 1-3, results "
            "reused, with solver failures and interruptions followed by a retry; distinct by event log")

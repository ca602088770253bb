"""T01 what is printed is what is stored."""
import ast
import copy
import random
import re

from work import *  # noqa: F401,F403
from work import F, gen_interrupt, gen_solver, gen_console, gen_schedule, gen_ref, build_ref, ref_year, HY, fr, un
import env
from models_poly import MP, ev
import models_poly as MQ
from work_lv import LVBase, gen_bounds, bounds_model, lv_points, rows3, gen_power
from work_poly import gen_poly, model_of, VModel, F_rows, small, fmt, to_model
from work_region import gen_tree, RegionBase, RM, size
from work_fn import gen_pw, gen_rat, build_rat, pmul, padd, pval, ptrim, poly_text
from work_zd import gen_rf, rf_build, gen_itv, itv_build, in_itv
from work_beta import gen_dom, build_aff
from work_mu import gen_pair
import polytope as PT
import region as RG
import functions as FN
import polynomial as PN
import large_values as LV
import additive_energy as AE
import bound_beta as BB
import bound_mu as BM
import exponent_pair as EP
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE
import literature as LT

RFN = FN.RationalFunction
str(RFN([F(1), F(2)], [F(3), F(1)]))       # warm up the lazy imports of the printer
str(RFN.parse("(x**2-1)/(3*x+1/2)"))


# ------------------------------------------------------------- independent readers
class Bad(Exception):
    pass


NUM = r"\d+(?:\.\d+)?(?:[eE][+-]?\d+)?(?:/\d+)?"


def read_lin(s, names):
    """Coefficients [c0, c1, ..., cd] of the printed linear expression."""
    co = [F(0)] * (len(names) + 1)
    alt = "|".join(re.escape(n) for n in sorted(names, key=len, reverse=True))
    term = re.compile(r"\s*([+-]?)\s*(%s)?\s*(%s)?" % (NUM, alt))
    pos, first, s = 0, True, s.strip()
    if not s:
        raise Bad("an empty expression")
    while pos < len(s):
        m = term.match(s, pos)
        if not m or m.end() == pos or (not m.group(2) and not m.group(3)):
            raise Bad("'%s' is no linear expression in %s" % (s, ",".join(names)))
        if not first and not m.group(1):
            raise Bad("'%s': two terms without a sign between them" % s)
        v = F(m.group(2)) if m.group(2) else F(1)
        if m.group(1) == "-":
            v = -v
        co[1 + names.index(m.group(3)) if m.group(3) else 0] += v
        pos, first = m.end(), False
        while pos < len(s) and s[pos] == " ":
            pos += 1
    return co


class TP:
    """A printed polytope."""

    def __init__(self, cons):
        self.cons = cons

    def has(self, x):
        for r, rel in self.cons:
            v = ev(r, x)
            if not (v == 0 if rel == "=" else v > 0 if rel == ">" else v >= 0):
                return False
        return True


def read_con(s, names):
    m = re.fullmatch(r"\s*(.*?)\s*(>=|<=|=|>|<)\s*0\s*", s, re.S)
    if not m:
        raise Bad("'%s' is no constraint" % s)
    r, rel = read_lin(m.group(1), names), m.group(2)
    if rel in ("<=", "<"):
        r, rel = [-v for v in r], {"<=": ">=", "<": ">"}[rel]
    return tuple(r), rel


def read_poly(s, names):
    try:
        v = ast.literal_eval(s.strip())
    except (ValueError, SyntaxError):
        raise Bad("'%s' is no list of constraints" % s[:200])
    if not isinstance(v, list):
        raise Bad("'%s' is no list of constraints" % s[:200])
    return TP([read_con(c, names) for c in v])


KINDS = {"Intersection": "I", "Union": "U", "Disjoint union": "U", "Complement": "C"}


class TR_:
    """A printed region."""

    def __init__(self, k, kids):
        self.k, self.kids = k, kids

    def has(self, x):
        if self.k == "C":
            if len(self.kids) != 1:
                raise Bad("a complement of %d sets" % len(self.kids))
            return not self.kids[0].has(x)
        return (all if self.k == "I" else any)(c.has(x) for c in self.kids)


def close(s, i, a, b):
    """Index after the bracket matching s[i]."""
    depth, q = 0, None
    for j in range(i, len(s)):
        c = s[j]
        if q:
            q = None if c == q else q
        elif c in "'\"":
            q = c
        elif c == a:
            depth += 1
        elif c == b:
            depth -= 1
            if depth == 0:
                return j + 1
    raise Bad("unbalanced '%s'" % s[:200])


def read_short(s, names):
    v, i = _short(s, 0, names)
    if s[i:].strip():
        raise Bad("'%s' after the region" % s[i:][:80])
    return v


def _short(s, i, names):
    while i < len(s) and s[i].isspace():
        i += 1
    if i < len(s) and s[i] == "[":
        j = close(s, i, "[", "]")
        return read_poly(s[i:j], names), j
    m = re.compile(r"(%s) of \{" % "|".join(KINDS)).match(s, i)
    if not m:
        raise Bad("'%s' is no region" % s[i:i + 120])
    kids, i = [], m.end()
    while True:
        while i < len(s) and s[i] in ", \n\t":
            i += 1
        if i >= len(s):
            raise Bad("unbalanced region")
        if s[i] == "}":
            return TR_(KINDS[m.group(1)], kids), i + 1
        k, i = _short(s, i, names)
        kids.append(k)


def read_long(s, names):
    lines = [ln for ln in s.split("\n") if ln.strip()]
    items = []
    for ln in lines:
        n = len(ln) - len(ln.lstrip("\t"))
        items.append((n, ln.strip()))
    if not items:
        raise Bad("nothing printed")
    base = items[0][0]

    def rec(i, depth):
        n, t = items[i]
        if n != depth:
            raise Bad("indentation %d where %d is due, at '%s'" % (n, depth, t[:80]))
        if t[0] == "[":
            return read_poly(t, names), i + 1
        if " of {" in t:
            return read_short(t, names), i + 1
        if t not in KINDS:
            raise Bad("'%s' is no region" % t[:80])
        kids, j = [], i + 1
        while j < len(items) and items[j][0] > depth:
            k, j = rec(j, depth + 1)
            kids.append(k)
        return TR_(KINDS[t], kids), j
    v, j = rec(0, base)
    if j != len(items):
        raise Bad("'%s' after the region" % items[j][1][:80])
    return v


def read_num(t):
    """An exact number, or a float for other arithmetic."""
    t = t.strip()
    try:
        return F(t)
    except (ValueError, ZeroDivisionError):
        raise Bad("'%s' is no number" % t[:60])


def read_itv(s):
    m = re.fullmatch(r"\s*([\[(])\s*([^,\[\]()]+?)\s*,\s*([^,\[\]()]+?)\s*([\])])\s*", s)
    if not m:
        raise Bad("'%s' is no interval" % s[:80])
    return read_num(m.group(2)), read_num(m.group(3)), m.group(1) == "[", m.group(4) == "]"


def in_read(i, x):
    return (i[0] < x or (i[0] == x and i[2])) and (x < i[1] or (x == i[1] and i[3]))


def ev_ast(t, x):
    """Value of printed arithmetic in x at an exact point; None at a pole, Bad outside rational arithmetic."""
    def rec(n):
        if isinstance(n, ast.BinOp):
            a, b = rec(n.left), rec(n.right)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Pow) and b.denominator == 1:
                return a ** int(b)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            v = rec(n.operand)
            return -v if isinstance(n.op, ast.USub) else v
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return F(str(n.value))
        if isinstance(n, ast.Name) and n.id == "x":
            return x
        raise Bad("'%s' is no rational expression" % t[:120])
    try:
        return rec(ast.parse(t.strip(), mode="eval").body)
    except ZeroDivisionError:
        return None
    except SyntaxError:
        raise Bad("'%s' is no expression" % t[:120])


class Tex:
    """Value of printed LaTeX arithmetic in x at an exact point."""

    TOK = re.compile(r"\s*(\\frac|\\left|\\right|\\cdot|\\,|\\sqrt|\d+\.\d+|\d+|[-+^{}()x])")

    def __init__(self, s, x):
        self.s, self.x, self.t, i = s, x, [], 0
        s = s.strip()
        while i < len(s):
            m = self.TOK.match(s, i)
            if not m:
                raise Bad("'%s' is no formula" % s[:120])
            i = m.end()
            if m.group(1) not in ("\\left", "\\right", "\\,"):
                self.t.append(m.group(1))
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, want=None):
        if self.i >= len(self.t) or want is not None and self.t[self.i] != want:
            raise Bad("'%s' is no formula (%s expected)" % (self.s[:120], want))
        self.i += 1
        return self.t[self.i - 1]

    def value(self):
        try:
            v = self.expr()
        except ZeroDivisionError:
            return None
        if self.i != len(self.t):
            raise Bad("'%s' is no formula" % self.s[:120])
        return v

    def expr(self):
        s = F(1)
        if self.peek() in ("+", "-"):
            s = F(-1) if self.take() == "-" else F(1)
        v = s * self.term()
        while self.peek() in ("+", "-"):
            s = F(-1) if self.take() == "-" else F(1)
            v += s * self.term()
        return v

    def term(self):
        v = self.factor()
        while self.peek() not in (None, "+", "-", "}", ")"):
            if self.peek() == "\\cdot":
                self.take()
            v *= self.factor()
        return v

    def factor(self):
        v = self.atom()
        if self.peek() == "^":
            self.take()
            n = self.atom()
            if n.denominator != 1:
                raise Bad("'%s': a fractional power" % self.s[:120])
            v = v ** int(n)
        return v

    def atom(self):
        t = self.take()
        if t == "\\frac":
            self.take("{")
            a = self.expr()
            self.take("}")
            self.take("{")
            b = self.expr()
            self.take("}")
            return a / b
        if t in "{(":
            v = self.expr()
            self.take("}" if t == "{" else ")")
            return v
        if t == "x":
            return self.x
        if re.fullmatch(r"[\d.]+", t):
            return F(t)
        raise Bad("'%s' is no formula" % self.s[:120])


def read_pow(s, var):
    """Coefficients of a printed polynomial such as '1 - 2x + 3/2x^2'."""
    co, s = {}, s.replace(" ", "")
    if s == "":
        raise Bad("an empty polynomial")
    pos = 0
    term = re.compile(r"([+-]?)(%s)?(?:(%s)(?:\^(\d+))?)?" % (NUM, re.escape(var)))
    while pos < len(s):
        m = term.match(s, pos)
        if not m or m.end() == pos or not (m.group(2) or m.group(3)) or (pos and not m.group(1)):
            raise Bad("'%s' is no polynomial in %s" % (s, var))
        d = 0 if not m.group(3) else int(m.group(4) or 1)
        v = F(m.group(2)) if m.group(2) else F(1)
        co[d] = co.get(d, F(0)) + (-v if m.group(1) == "-" else v)
        pos = m.end()
    return {k: v for k, v in co.items() if v}


def names_of(d, s=""):
    """The default variable names: letters or numbered, as the text has it."""
    return list("xyzwu")[:d] if d <= 5 and "x_" not in s else ["x_%d" % i for i in range(1, d + 1)]


VARS = {1: [["x"], ["σ"], ["t"]], 2: [["a", "b"], ["s", "t"], ["σ", "τ"]], 3: [["σ", "τ", "ρ"], ["σ", "τ", "ρ*"], ["s", "t", "r"]]}


def var_names(rng, d, default=0.5):
    if rng.random() < default:
        return None
    if d in VARS:
        return rng.choice(VARS[d])
    return rng.choice([["v%d" % i for i in range(d)], ["p_{%d}" % i for i in range(d)]])


XS = [F(k, 12) for k in range(-24, 37, 5)] + [F(1, 2), F(1), F(0), F(3, 4), F(19, 23)]


# -------------------------------------------------------------------- the subjects
class Sub:
    """A live object with a model; text(rng) prints it some way and judge() reads that back."""

    kind = "?"
    ops = []

    def __init__(self, obj, model=None):
        self.o, self.m = obj, model
        self.owner = None

    def forms(self, rng):
        """(how, printing function, reader of the text) for one drawn way to print."""
        raise NotImplementedError

    def state(self):
        return ()


class SItv(Sub):
    kind = "interval"

    def forms(self, rng):
        def check(e, lab, s):
            r = read_itv(s)
            for x in sorted({r[0], r[1], F(self.o.x0), F(self.o.x1), (r[0] + r[1]) / 2, r[0] - 1, r[1] + 1} | set(XS[::3])):
                w = bool(self.o.contains(x))
                if in_read(r, x) != w:
                    e.fail("interval", "%s: %s is %s the interval printed as %s" % (lab, x, "in" if w else "not in", s))
                if self.m is not None and in_itv(self.m, x) != w:
                    e.fail("interval", "%s: membership of %s in %s is %s" % (lab, x, self.m, w))
            q = FN.Interval.parse(s)
            if not (q == self.o) or not (FN.Interval(s) == self.o):
                e.fail("interval", "%s: %s read back is %s" % (lab, s, q))
        return "repr", lambda: rng.choice([str, repr])(self.o), check


class SAff(Sub):
    kind = "affine"

    def forms(self, rng):
        v = rng.choice([None, "x", "t", "σ", "alpha"])

        def check(e, lab, s):
            m = re.fullmatch(r"(.*) for (\S+) \\in ([\[(][^\])]*[\])])(?:\s*\((.*)\))?", s, re.S)
            if not m:
                raise Bad("'%s' is no affine function" % s[:120])
            if m.group(2) != (v or "x"):
                e.fail("variable", "%s: printed in %s instead of %s: %s" % (lab, m.group(2), v or "x", s))
            c, i = read_lin(m.group(1), [v or "x"]), read_itv(m.group(3))
            for x in {i[0], i[1], (i[0] + i[1]) / 2, F(self.o.domain.x0), F(self.o.domain.x1), F(-1), F(2)} | set(XS[::4]):
                g = self.o.at(x)
                w = c[0] + c[1] * x if in_read(i, x) else None
                if (g is None) != (w is None) or g is not None and g != w:
                    e.fail("affine", "%s: at %s the function is %s, printed as %s" % (lab, x, g, s))
            if (m.group(4) or None) != (None if self.o.label is None else str(self.o.label)):
                e.fail("label", "%s: label %s printed as %s" % (lab, self.o.label, s))
        return "affine", (lambda: str(self.o)) if v is None else (lambda: self.o.to_str(v)), check


def pts_for(mods, rng, n, d):
    ps = MQ.cell_points(mods, rng, n, d)
    for m in mods[:3]:
        if m.bounded():
            v = m.verts()
            ps += rng.sample(v, min(3, len(v)))
            if len(v) >= 2:
                a, b = rng.sample(v, 2)
                ps.append(tuple((p + q) / 2 for p, q in zip(a, b)))
    return ps


class SPoly(Sub):
    kind = "polytope"

    def forms(self, rng):
        d = self.o.dimension()
        v = var_names(rng, d)
        arg = v if v is None or rng.random() < 0.5 or any(len(n) > 1 for n in v) else "".join(v)

        def check(e, lab, s):
            t = read_poly(s, v or names_of(d, s))
            m = self.m or to_model(self.o)
            for x in pts_for([m] if d <= 3 else [], rng, 10, d) + [tuple(small(rng, -2, 3) for _ in range(d)) for _ in range(8)]:
                w = bool(self.o.contains(list(x)))
                if t.has(x) != w:
                    e.fail("polytope", "%s: membership of %s is %s, but the polytope is printed as %s" % (lab, fmt(x), w, s[:400]))
                if self.m is not None and self.m.contains(x) != t.has(x):
                    e.fail("polytope", "%s: by its constraints membership of %s is %s, but it is printed as %s" % (
                        lab, fmt(x), self.m.contains(x), s[:400]))
        return "poly", (lambda: str(self.o)) if v is None else (lambda: self.o.to_str(arg)), check


class SCon(Sub):
    kind = "constraint"

    def forms(self, rng):
        d, rel = len(self.m[0]) - 1, self.m[1]

        def check(e, lab, s):
            r, k = read_con(s, names_of(d, s))
            if k != rel:
                e.fail("constraint", "%s: a constraint of kind %s is printed as %s" % (lab, rel, s))
            t, w = TP([(r, k)]), TP([(tuple(self.m[0]), rel)])
            for x in [tuple(small(rng, -2, 3) for _ in range(d)) for _ in range(8)] + [self.root(rng, d)]:
                if x is not None and t.has(x) != w.has(x):
                    e.fail("constraint", "%s: %s %s the constraint %s, printed as %s" % (
                        lab, fmt(x), "satisfies" if w.has(x) else "fails", [str(v) for v in self.m[0]], s))
            if r != tuple(self.m[0]) and r != tuple(-v for v in self.m[0]):
                e.fail("constraint", "%s: coefficients %s printed as %s" % (lab, [str(v) for v in self.m[0]], s))
        return "constraint", lambda: str(self.o), check

    def root(self, rng, d):
        c = self.m[0]
        k = next((i for i in range(d) if c[i + 1]), None)
        if k is None:
            return None
        x = [small(rng, -2, 3) for _ in range(d)]
        x[k] = -(c[0] + sum(c[i + 1] * x[i] for i in range(d) if i != k)) / c[k + 1]
        return tuple(x)


class SReg(Sub):
    kind = "region"

    def forms(self, rng):
        d = self.m.leaves()[0].d
        v = var_names(rng, d)
        how = rng.choice(["str", "short", "long"])
        arg = v if v is None or rng.random() < 0.5 or any(len(n) > 1 for n in v) else "".join(v)
        if how == "str":
            v, fn = None, lambda: str(self.o)
        elif how == "short":
            fn = lambda: self.o.to_str(use_indentation=False, variables=arg)     # noqa: E731
        else:
            fn = lambda: self.o.to_str(variables=arg)       # noqa: E731

        def check(e, lab, s):
            t = (read_long if how == "long" else read_short)(s, v or names_of(d, s))
            for x in MQ.cell_points(self.m.leaves(), rng, 14, d) + pts_for(self.m.leaves()[:2], rng, 2, d):
                w = bool(self.o.contains(list(x)))
                if t.has(x) != w:
                    e.fail("region", "%s: membership of %s is %s, but the region is printed as %s" % (lab, fmt(x), w, s[:500]))
        return how, fn, check


class SPw(Sub):
    kind = "piecewise"

    def forms(self, rng):
        o, d = self.o, self.m
        how = "list" if rng.random() < 0.5 else "pieces"

        def fn():
            return str(o) if how == "list" else "\n".join(str(p) for p in o.pieces)

        def check(e, lab, s):
            s0 = s
            if how == "list":
                m = re.fullmatch(r"\[(\d+) pieces\]", s)
                if m:
                    if int(m.group(1)) != len(o.pieces):
                        e.fail("piecewise", "%s: %d pieces printed as %s" % (lab, len(o.pieces), s))
                    return
                s = s.strip()
                if not (s.startswith("[") and s.endswith("]")):
                    raise Bad("'%s' is no list of pieces" % s[:120])
                s = s[1:-1]
            out, i = [], 0
            while s[i:].strip(" ,\n"):
                m = re.compile(r"[\s,]*(.+?) on (?=\[)", re.S).match(s, i)
                if not m:
                    raise Bad("'%s' is no piece" % s[i:i + 120])
                j = close(s, m.end(), "[", "]")
                out.append((read_lin(m.group(1), names_of(d, s)), read_poly(s[m.end():j], names_of(d, s))))
                i = j
            if len(out) != len(o.pieces):
                e.fail("piecewise", "%s: %d pieces, %d printed: %s" % (lab, len(o.pieces), len(out), s0[:400]))
            mods = [to_model(p.domain) for p in o.pieces]
            for x in MQ.cell_points(mods[:6], rng, 12, d, F(-1), F(5)):
                g = o.at(list(x))
                w = {ev(c, x) for c, p in out if p.has(x)}
                if g is None and w or g is not None and g not in w:
                    e.fail("piecewise", "%s: at %s the function is %s, printed %s" % (lab, fmt(x), g, s0[:500]))
        return how, fn, check


class SRat(Sub):
    kind = "rational"

    def forms(self, rng):
        def check(e, lab, s):
            for x in XS:
                w = self.m.at(x)
                g = Tex(s, x).value()
                if w is not None and g is not None and g != w:
                    e.fail("rational", "%s: at %s the function is %s, but it is printed as %s" % (lab, x, w, s))
                if w is not None and g is None:
                    e.fail("rational", "%s: at %s the function is %s, but %s has a pole there" % (lab, x, w, s))
        return "latex", lambda: str(self.o), check


def read_quot(s):
    """(numerator, denominator) of a printed quotient such as '(x^2 + x + 1)/(x + 1)', as coefficients by degree."""
    s = s.strip()
    try:
        return read_pow(s, "x"), {0: F(1)}
    except Bad:
        pass
    cuts, depth = [], 0
    for i, ch in enumerate(s):
        depth += {"(": 1, ")": -1}.get(ch, 0)
        if ch == "/" and depth == 0:
            cuts.append(i)
    for i in reversed(cuts):
        parts = []
        for t in (s[:i].strip(), s[i + 1:].strip()):
            if t.startswith("(") and t.endswith(")"):
                t = t[1:-1]
            try:
                parts.append(read_pow(t, "x"))
            except Bad:
                break
        if len(parts) == 2 and parts[1]:
            return parts
    raise Bad("'%s' is no quotient of polynomials" % s)


class SRf2(Sub):
    """A quotient of polynomials on an interval; m = (numerator, denominator, interval), highest powers first."""

    kind = "quotient"

    def forms(self, rng):
        n, d, itv = self.m

        def check(e, lab, s):
            m = re.fullmatch(r"(.*) on (\S.*)", s)
            if not m:
                raise Bad("'%s' is no function on an interval" % s)
            a, b = read_quot(m.group(1))

            def val(co, x):
                return sum((c * x ** k for k, c in co.items()), F(0))
            a0, b0 = {len(n) - 1 - k: c for k, c in enumerate(n)}, {len(d) - 1 - k: c for k, c in enumerate(d)}
            for x in XS:
                if val(b0, x) != 0 and (val(b, x) == 0 or val(a, x) / val(b, x) != val(a0, x) / val(b0, x)):
                    e.fail("quotient", "%s: the quotient of %s and %s is printed as %s" % (lab, [str(c) for c in n], [str(c) for c in d], s))
            r = read_itv(m.group(2))
            for x in sorted({un(itv[0]), un(itv[1]), (un(itv[0]) + un(itv[1])) / 2}):
                if in_read(r, x) != in_itv(itv, x):
                    e.fail("quotient", "%s: the interval %s is printed as %s" % (lab, itv, s))
            zero, flat = not any(n), not any(d[:-1])
            if bool(self.o.is_zero()) != zero or not zero and (bool(self.o.is_constant()) != (flat and not any(n[:-1])) or
                                                              bool(self.o.is_affine()) != (flat and not any(n[:-2]))):
                e.fail("quotient", "%s: %s over %s is zero %s, constant %s, affine %s" % (lab, [str(c) for c in n], [str(c) for c in d],
                                                                                        self.o.is_zero(), self.o.is_constant(), self.o.is_affine()))
        return "quotient", lambda: rng.choice([str, repr])(self.o), check


class SPn(Sub):
    kind = "polynomial"

    def forms(self, rng):
        v = rng.choice([None, "x", "t", "σ"])

        def check(e, lab, s):
            got = read_pow(s, v or "x")
            want = {i: c for i, c in enumerate(self.m) if c}
            if got != want:
                e.fail("polynomial", "%s: coefficients %s are printed as %s" % (lab, [str(c) for c in self.m], s))
            for a, b in zip(self.o.coefficients, self.m):
                if a != b:
                    e.fail("polynomial", "%s: coefficients %s instead of %s" % (lab, self.o.coefficients, [str(c) for c in self.m]))
            if len(self.o.coefficients) != len(self.m):
                e.fail("polynomial", "%s: coefficients %s instead of %s" % (lab, self.o.coefficients, [str(c) for c in self.m]))
        return "poly", (lambda: str(self.o)) if v is None else (lambda: self.o.to_str(v)), check


class SHyp(Sub):
    """A hypothesis: its name, description and proof as printed, and its datum's own text."""

    kind = "hypothesis"
    LV3 = [(F(1, 2), F(1)), (F(0), F(6)), (F(0), F(3))]

    def forms(self, rng):
        h, how = self.o, rng.choice(["name", "desc", "proof", "datum", "datum", "datum"])
        fn = {"name": lambda: str(h), "desc": h.desc, "proof": h.desc_with_proof, "datum": lambda: str(h.data)}[how]

        def check(e, lab, s):
            if how == "name":
                if s != h.name:
                    e.fail("name", "%s: hypothesis '%s' is printed as '%s'" % (lab, h.name, s))
                return
            if how == "datum":
                return self.datum(e, lab, s, rng)
            pre, post = (h.name + " (", ")") if how == "desc" else (h.name + ": ", ".  " + h.proof + ".")
            if not s.startswith(pre) or not s.endswith(post):
                e.fail("description", "%s: '%s' with proof '%s' is described as '%s'" % (lab, h.name, h.proof, s[:300]))
            self.datum(e, lab, s[len(pre):len(s) - len(post)], rng)
        return how, fn, check

    def datum(self, e, lab, s, rng):
        d, m = self.o.data, self.m or ("none",)
        bad = lambda why: e.fail("datum", "%s: %s, but it is printed as %s" % (lab, why, s[:400]))      # noqa: E731
        if isinstance(d, EP.Exp_pair):
            q = re.fullmatch(r".*?\(([^,()]+),([^,()]+)\)\s*", s, re.S)
            if not q:
                raise Bad("'%s' is no exponent pair" % s[:80])
            if (read_num(q.group(1)), read_num(q.group(2))) != (d.k, d.l):
                bad("the pair is (%s, %s)" % (d.k, d.l))
            if m[0] == "ep" and (d.k, d.l) != m[1:]:
                e.fail("datum", "%s: the pair is (%s, %s), not %s" % (lab, d.k, d.l, m[1:]))
        elif isinstance(d, BM.Bound_mu):
            q = re.fullmatch(r".*?\\mu\(([^()]+)\)\s*\\leq\s*(\S+)\s*", s)
            if not q:
                raise Bad("'%s' is no bound on mu" % s[:80])
            if (read_num(q.group(1)), read_num(q.group(2))) != (d.sigma, d.mu):
                bad("the bound is mu(%s) <= %s" % (d.sigma, d.mu))
        elif isinstance(d, BB.Bound_beta):
            q = re.fullmatch(r"\\beta\(x\)\s*\\leq\s*(.*)", s, re.S)
            if not q:
                raise Bad("'%s' is no bound on beta" % s[:80])
            SAff(d.bound).forms(random.Random(0))
            m2 = re.fullmatch(r"(.*) for x \\in ([\[(][^\])]*[\])])(?:\s*\((.*)\))?", q.group(1), re.S)
            if not m2:
                raise Bad("'%s' is no affine function" % s[:120])
            c, i = read_lin(m2.group(1), ["x"]), read_itv(m2.group(2))
            for x in {i[0], i[1], (i[0] + i[1]) / 2, F(d.bound.domain.x0), F(d.bound.domain.x1)} | set(XS[::4]):
                g = d.bound.at(x)
                w = c[0] + c[1] * x if in_read(i, x) else None
                if (g is None) != (w is None) or g is not None and g != w:
                    bad("at %s the bound is %s" % (x, g))
        elif isinstance(d, (ZD.Zero_Density_Estimate, ZE.Zero_Density_Energy_Estimate)):
            star = isinstance(d, ZE.Zero_Density_Energy_Estimate)
            q = re.fullmatch(r"A(\*?)\(x\)\s*\\leq\s*(.*?) on ([\[(][^\])]*[\])])", s, re.S)
            if not q or bool(q.group(1)) != star:
                raise Bad("'%s' is no %s estimate" % (s[:120], "energy" if star else "density"))
            try:
                i = read_itv(q.group(3))
            except Bad:
                if isinstance(d.interval.x0, (int, F)) and isinstance(d.interval.x1, (int, F)):
                    raise
                return
            for x in {F(i[0]), F(i[1])}:
                if in_read(i, x) != bool(d.interval.contains(x)):
                    bad("the range %s %s" % ("contains" if d.interval.contains(x) else "does not contain", x))
            if (i[0], i[1]) != (d.interval.x0, d.interval.x1):
                bad("the range is from %s to %s" % (d.interval.x0, d.interval.x1))
            for t in (F(1, 3), F(4, 7)):
                x = i[0] + (i[1] - i[0]) * t
                if not in_read(i, x):
                    continue
                try:
                    g = Tex(q.group(2), x).value() if "\\" in q.group(2) else ev_ast(q.group(2), x)
                except Bad:
                    if "\\frac" in q.group(2) or "**" not in q.group(2):
                        try:
                            g = Tex(q.group(2), x).value()
                        except Bad:
                            if m[0] == "zd" and m[1]["k"] != "sqrt":
                                raise
                            continue
                    else:
                        if m[0] == "zd" and m[1]["k"] != "sqrt":
                            raise
                        continue
                w = d.at(x)
                if g is not None and abs(float(w) - float(g)) > 1e-9 * max(1, abs(float(g))):
                    bad("at %s the estimate is %s" % (x, w))
        elif isinstance(d, (LV.Large_Value_Estimate, AE.Additive_Energy_Estimate)):
            self.lv(e, lab, s, rng, d, bad)
        elif isinstance(d, (LV.Large_Value_Estimate_Transform,)) or hasattr(d, "transform"):
            if not s:
                bad("it is a transform")

    def lv(self, e, lab, s, rng, d, bad):
        ae = isinstance(d, AE.Additive_Energy_Estimate)
        names = ["σ", "τ", "ρ*"] if ae else ["σ", "τ", "ρ"]
        m = self.m[1] if self.m and self.m[0] == "lv" else None
        q = re.fullmatch(r"ρ\*? <= (.*)", s, re.S)
        box = self.LV3
        if q and not s.startswith("("):
            t = q.group(1).strip()
            if t.startswith("max(") and t.endswith(")"):
                bs = [read_lin(p, ["σ", "τ"]) for p in t[4:-1].split(",")]
            else:
                bs = [read_lin(t, ["σ", "τ"])]
            has = lambda x: x[2] <= max(b[0] + b[1] * x[0] + b[2] * x[1] for b in bs)       # noqa: E731
            rows = [tuple(b) + (F(-1),) for b in bs]
        else:
            q = re.fullmatch(r"\(\s*%s\s*\)\s+in\s+(.*)" % r"\s*,\s*".join(re.escape(n) for n in names), s, re.S)
            if not q:
                raise Bad("'%s' is no estimate for (%s)" % (s[:160], ",".join(names)))
            t = read_short(q.group(1), names)
            has, rows = t.has, []
        if m is not None:
            rows = rows + rows3(m)
        for x in lv_points(rng, rows[:14], box, 10):
            w = bool(d.region.contains(list(x)))
            if has(x) != w:
                bad("%s is %s the region" % (fmt(x), "in" if w else "not in"))
            if m is not None and m.inside(x) != w:
                e.fail("datum", "%s: %s is %s the region, by definition not so" % (lab, fmt(x), "in" if w else "not in"))


class SSet(Sub):
    kind = "store"

    def forms(self, rng):
        def check(e, lab, s):
            q = re.fullmatch(r"Set of (\d+) hypotheses: \[(.*)\]", s, re.S)
            if not q:
                raise Bad("'%s' is no store" % s[:120])
            ns = sorted(h.name for h in self.o)
            if int(q.group(1)) != len(ns):
                e.fail("store", "%s: %d hypotheses are stored, but %s" % (lab, len(ns), s[:300]))
            t = q.group(2)
            if len(t) != len(",".join(ns)):
                e.fail("store", "%s: the hypotheses %s are printed as %s" % (lab, ns, s[:300]))
            for n in ns:
                if n not in t:
                    e.fail("store", "%s: hypothesis '%s' is missing in %s" % (lab, n, s[:300]))
        return "store", lambda: str(self.o), check


def gen_affine(rng):
    c = lambda: F(rng.randint(-6, 6), rng.choice([1, 1, 2, 3, 7]))      # noqa: E731
    return {"m": fr(rng.choice([c(), c(), F(0), F(1), F(-1)])), "c": fr(rng.choice([c(), c(), F(0)])),
            "d": gen_dom(rng, F(0), F(1, 2), [F(i, 12) for i in range(7)]), "l": rng.choice([None, None, "vdc", "A x", 3])}


LITH = []


def literature_hyps():
    """Printable hypotheses of the literature database, in a fixed order."""
    if not LITH:
        for h in LT.literature:
            if isinstance(h.data, (EP.Exp_pair, BM.Bound_mu, BB.Bound_beta, ZD.Zero_Density_Estimate, ZE.Zero_Density_Energy_Estimate)) \
                    or isinstance(h.data, LV.Large_Value_Estimate) and h.data.repr is not None:
                LITH.append(h)
        LITH.sort(key=lambda h: (h.hypothesis_type, h.name, str(h.description), str(h.proof)))
    return LITH


literature_hyps()


class PrintedForms(LVBase):
    pid = "T01"
    cases = {"quick": 3200, "thorough": 40000}
    real = ["helpers/str_helper.py", "functions.py", "polytope.py", "region.py", "polynomial.py", "hypotheses.py", "large_values.py", "additive_energy.py",
            "bound_beta.py", "bound_mu.py", "exponent_pair.py", "zero_density_estimate.py", "zero_density_energy_estimate.py",
            "literature.py", "sympy", "pycddlib"]
    rule = ("seeded histories of printing, copying and combining intervals, affine and piecewise functions, polytopes, constraints, regions, "
            "rational functions, polynomials, estimates, hypotheses and stores, with interrupted printing, failing solvers and concurrent "
            "printers; every text is read back by an independent reader and compared with the object point by point; non-trivial when a "
            "text was read back after the object had gone through another operation; distinct by event log")

    KINDS = ["itv", "aff", "aff", "poly", "poly", "poly", "con", "reg", "reg", "reg", "pw", "pw", "rat", "rat", "rf2", "pn", "lv", "lv", "hyp",
             "hyp", "zd", "zd", "lit", "set"]

    def generate(self, rng, tier):
        subs = []
        focus = rng.choice(self.KINDS) if rng.random() < 0.5 else None
        for _ in range(rng.randint(1, 4)):
            k = focus or rng.choice(self.KINDS)
            s = {"k": k}
            if k == "itv":
                s["i"] = gen_itv(rng, F(0), F(2))
                s["text"] = rng.random() < 0.4
            elif k == "aff":
                s["a"] = gen_affine(rng)
            elif k == "poly":
                s["d"] = rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 6])
                if s["d"] <= 3:
                    s["p"] = gen_poly(rng, s["d"])
                else:
                    s["rows"] = [[fr(small(rng, -2, 2))] + [fr(F(rng.choice([0, 0, 1, -1, 2, -3]), rng.choice([1, 1, 2])))
                                                          for _ in range(s["d"])] for _ in range(rng.randint(1, 5))]
                    s["lin"] = rng.random() < 0.25
            elif k == "con":
                d = rng.choice([1, 2, 3, 4, 5, 6, 7])
                s["c"] = [fr(rng.choice([F(0), small(rng, -2, 2)]))] + [fr(rng.choice([F(0), F(1), F(-1), small(rng, -3, 3)])) for _ in range(d)]
                if not any(un(v) for v in s["c"][1:]) and rng.random() < 0.7:
                    s["c"][-1] = "-1"
                s["t"] = rng.choice([0, 0, 1, 2, 3])
            elif k == "reg":
                s["d"] = rng.choice([1, 2, 2, 3])
                while True:
                    s["t"] = gen_tree(rng, s["d"], rng.choice([1, 1, 2, 2]), rng.choice([["I", "D", "H", "P"], ["I", "U", "D", "C", "P", "H"], ["U", "P"]]))
                    if size(s["t"]) <= 10:
                        break
                s["naked"] = rng.random() < 0.1
            elif k == "pw":
                s["d"] = rng.choice([2, 2, 3])
                s["f"] = gen_pw(rng, s["d"])
                if rng.random() < 0.6:
                    new = {}
                    for q in s["f"]:
                        q["a"] = new.setdefault(tuple(q["a"]), [fr(small(rng, -3, 3)) for _ in q["a"]])
            elif k == "rat":
                s["f"] = gen_rat(rng)
            elif k == "rf2":
                s["n"] = [fr(rng.choice([F(0), F(0), F(1), F(-1), small(rng, -3, 3)])) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
                s["d"] = [fr(rng.choice([F(0), F(0), F(1), F(2), small(rng, -3, 3)])) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
                if s["d"] and not any(un(v) for v in s["d"]):
                    s["d"][rng.randrange(len(s["d"]))] = "1"
                s["i"] = gen_itv(rng, F(0), F(2))
            elif k == "pn":
                s["c"] = [fr(rng.choice([F(0), F(1), F(-1), small(rng, -3, 3)])) for _ in range(rng.randint(0, 5))]
            elif k == "lv":
                s["b"] = gen_bounds(rng)
                if rng.random() < 0.2:
                    s["b"][rng.randrange(len(s["b"]))] = ["0", "0", "0"]
                s["ref"] = gen_ref(rng)
                s["how"] = rng.choice(["lit", "conv", "region", "ae"])
                s["par"] = rng.choice(["", " with k = 3"])
            elif k == "hyp":
                s["h"] = rng.choice(["ep", "mu", "beta"])
                s["p"] = [fr(F(rng.randint(0, 20), 84)), fr(F(rng.randint(42, 84), 84))]
                s["a"] = gen_affine(rng)
                s["ref"] = gen_ref(rng)
            elif k == "zd":
                s.update(f=gen_rf(rng), i=gen_itv(rng), star=rng.random() < 0.4, how=rng.choice(["text", "rf", "rf"]), ref=gen_ref(rng))
            elif k == "lit":
                s["n"] = rng.randrange(100000)
            elif k == "set":
                s["ns"] = [rng.randrange(100000) for _ in range(rng.randint(0, 6))]
            subs.append(s)
        ops = []
        for _ in range(rng.randint(3, 9)):
            o = rng.choice(["print", "print", "print", "step", "step", "pair"])
            op = {"op": o, "i": rng.randrange(8), "j": rng.randrange(8), "r": rng.getrandbits(32), "fault": None}
            if o == "pair":
                op["schedule"] = gen_schedule(rng, 2, 240, rng.choice([2, 5, 12, 40]))
            elif rng.random() < 0.35:
                op["fault"] = rng.choice([gen_solver(rng, ["LinProg", "Polyhedron", "parse_expr"], 6), gen_interrupt(rng, 150), gen_interrupt(rng, 30)])
            ops.append(op)
        return {"subs": subs, "ops": ops}

    # ---------------------------------------------------------------- building
    def build(self, e, s, lab):
        k = s["k"]
        mk = lambda f: e.must(f, lab).value      # noqa: E731
        if k == "itv":
            i = s["i"]
            if s["text"]:
                t = "%s%s, %s%s" % ("[" if i[2] else "(", un(i[0]), un(i[1]), "]" if i[3] else ")")
                return SItv(mk(lambda: FN.Interval(t)), i)
            return SItv(mk(lambda: itv_build(i)), i)
        if k == "aff":
            f = mk(lambda: build_aff(s["a"]))
            f.label = s["a"]["l"]
            return SAff(f)
        if k == "poly":
            if "rows" in s:
                rows = [r for r in F_rows(s["rows"]) if any(r[1:])]
                if not rows:
                    return None
                m = MP(s["d"], [], rows) if s["lin"] else MP(s["d"], rows)
                return SPoly(mk(lambda: PT.Polytope([list(r) for r in rows], linear=s["lin"])), m)
            p = s["p"]
            if p["k"] == "H":
                return SPoly(mk(lambda: PT.Polytope(F_rows(p["rows"]), canonicalize=p["canon"])), MP(s["d"], F_rows(p["rows"])))
            if p["k"] == "rect":
                return SPoly(mk(lambda: PT.Polytope.rect(*[(un(a), un(b)) for a, b in p["lims"]])), model_of(p, s["d"]))
            if p["k"] == "lin":
                m = model_of(p, s["d"])
                if not m.eqs or not any(any(r[1:]) for r in m.eqs):
                    return None
                return SPoly(mk(lambda: PT.Polytope([list(r) for r in m.eqs], linear=True)), m)
            pts = [[un(v) for v in q] for q in p["vs"]]
            return SPoly(mk(lambda: PT.Polytope.from_V_rep([list(q) for q in pts])), VModel([tuple(q) for q in pts], s["d"]))
        if k == "con":
            c = [un(v) for v in s["c"]]
            if s["t"] == 3:
                return SCon(mk(lambda: PT.Hyperplane(list(c))), (c, "="))
            return SCon(mk(lambda: PT.Constraint(list(c), s["t"])), (c, {0: ">=", 1: ">", 2: "="}[s["t"]]))
        if k == "reg":
            if s["naked"]:
                rows = F_rows(gen_tree(random.Random(size(s["t"])), s["d"], 0, ["P"])["rows"])
                return SReg(mk(lambda: RG.Region.complement(PT.Polytope(rows))), RM("C", [RM("P", mp=MP(s["d"], rows))]))
            r, m = mk(lambda: RegionBase.build(RegionBase(), e, s["t"], s["d"], ""))
            return SReg(r, m)
        if k == "pw":
            def go():
                return FN.Piecewise([FN.Affine2([un(v) for v in p["a"]], PT.Polytope([[un(v) for v in r] for r in p["p"]]), p["l"]) for p in s["f"]])
            return SPw(mk(go), s["d"])
        if k == "rat":
            f, m = mk(lambda: build_rat(s["f"]))
            return SRat(f, m)
        if k == "rf2":
            n, d = [un(v) for v in s["n"]], [un(v) for v in s["d"]]
            return SRf2(mk(lambda: FN.RationalFunction2((list(n), list(d)) if d else list(n), itv_build(s["i"]))), (n, d or [F(1)], s["i"]))
        if k == "pn":
            c = [un(v) for v in s["c"]]
            while c and c[-1] == 0:
                c.pop()
            return SPn(mk(lambda: PN.Polynomial(tuple(c))), c)
        if k == "lv":
            bs = [[un(v) for v in b] for b in s["b"]]
            m = ("lv", bounds_model(bs))
            ref = build_ref(s["ref"])
            cp = lambda: [list(b) for b in bs]       # noqa: E731
            if s["how"] == "lit":
                return SHyp(mk(lambda: LV.literature_bound_LV_max(cp(), ref, s["par"])), m)
            if s["how"] == "ae":
                return SHyp(mk(lambda: HY.Hypothesis("energy bound", "Additive energy estimate", AE.Additive_Energy_Estimate(
                    LV.convert_bounds(cp()).region), "Proof", ref)), m)
            if s["how"] == "region":
                return SHyp(mk(lambda: LV.derived_bound_LV(LV.convert_bounds(cp()).region, "Proof", set())), m)
            return SHyp(mk(lambda: LV.conjectured_LV_estimate(cp(), "Conjecture")), m)
        if k == "hyp":
            a, b = un(s["p"][0]), un(s["p"][1])
            if s["h"] == "ep":
                return SHyp(mk(lambda: EP.derived_exp_pair(a, b, "Proof of (%s)" % a, set())), ("ep", a, b))
            if s["h"] == "mu":
                return SHyp(mk(lambda: BM.derived_bound_mu(b, a, "Some proof", set())))
            return SHyp(mk(lambda: BB.derived_bound_beta(build_aff(s["a"]), "Follows", set())))
        if k == "zd":
            D, mod = (ZE.Zero_Density_Energy_Estimate, ZE) if s["star"] else (ZD.Zero_Density_Estimate, ZD)
            if s["how"] == "text":
                d = mk(lambda: D(s["f"]["e"], itv_build(s["i"])))
            else:
                d = mk(lambda: D.from_rational_func(rf_build(s["f"]), itv_build(s["i"])))
            f = ZE.derived_zero_density_energy_estimate if s["star"] else ZD.derived_zero_density_estimate
            return SHyp(mk(lambda: f(d, "Proof", set())), ("zd", s["f"]))
        if k == "lit":
            hs = literature_hyps()
            h = hs[s["n"] % len(hs)]
            h.__dict__.pop("_sim_addr", None)
            return SHyp(h)
        hs = literature_hyps()
        pick = [hs[n % len(hs)] for n in s["ns"]]
        for h in pick:
            h.__dict__.pop("_sim_addr", None)
        S = mk(lambda: HY.Hypothesis_Set())
        mk(lambda: S.add_hypotheses(pick))
        return SSet(S, s["ns"])

    # ------------------------------------------------------------------ running
    def run(self, case, e):
        O = []
        for n, s in enumerate(case["subs"]):
            u = self.build(e, s, "build#%d" % n)
            if u is not None:
                O.append(u)
        if not O:
            return
        self.stepped = False
        for n, op in enumerate(case["ops"]):
            rng = random.Random(op["r"])
            lab = "%s#%d" % (op["op"], n)
            u = O[op["i"] % len(O)]
            if op["op"] == "print":
                self.show(e, u, rng, lab, op["fault"])
            elif op["op"] == "pair":
                self.pair(e, [u, O[op["j"] % len(O)]], op["schedule"], rng, lab)
            else:
                new = self.step(e, u, O[op["j"] % len(O)], rng, lab, op["fault"])
                self.stepped = True
                for v in new or []:
                    O.append(v)
                    self.show(e, v, rng, lab + "-new", None)
                self.show(e, u, rng, lab + "-old", None)
                if len(O) > 9:
                    O.pop(0)
            e.cover(op["op"], u.kind, len(O), bool(op["fault"]))
        for n, u in enumerate(O):
            self.show(e, u, random.Random(n), "end#%d" % n, None)

    def read(self, e, u, how, check, lab, s):
        if not isinstance(s, str):
            e.fail("no-text", "%s: printing gives %r" % (lab, type(s)))
        try:
            check(e, "%s (%s, %s)" % (lab, u.kind, how), s)
        except Bad as b:
            e.fail("unreadable", "%s (%s, %s): printed form cannot be read: %s" % (lab, u.kind, how, b))
        if self.stepped:
            e.probe("nontrivial")
        e.probe("texts_read")

    def show(self, e, u, rng, lab, fault):
        how, fn, check = u.forms(rng)
        s = self.ask(e, fn, fault, lab)
        self.read(e, u, how, check, lab, s)
        t = e.must(fn, lab + "-again").value
        if t != s and u.kind != "store":
            e.fail("unstable", "%s (%s, %s): printed %s and then %s" % (lab, u.kind, how, s[:200], t[:200]))

    def pair(self, e, us, schedule, rng, lab):
        fs = [u.forms(rng) for u in us]
        rs = e.threads([f[1] for f in fs], schedule)
        for u, (how, fn, check), r in zip(us, fs, rs):
            if not r.ok:
                e.fail("unexpected-error", "%s (%s): printing raised %s: %s" % (lab, u.kind, type(r.exc).__name__, str(r.exc)[:200]))
            self.read(e, u, how, check, lab, r.value)
        e.probe("concurrent_printers")

    # -------------------------------------------------------------------- steps
    def step(self, e, u, v, rng, lab, fault):
        return getattr(self, "step_" + u.kind)(e, u, v, rng, lab, fault)

    def step_interval(self, e, u, v, rng, lab, fault):
        if v.kind != "interval":
            c = self.ask(e, lambda: u.o.deep_copy(), fault, lab)
            return [SItv(c, u.m)]
        return [SItv(self.ask(e, lambda: u.o.intersect(v.o), fault, lab))]

    def step_affine(self, e, u, v, rng, lab, fault):
        if v.kind == "affine" and v is not u:
            rs = self.ask(e, lambda: u.o.min_with([v.o]), fault, lab) if rng.random() < 0.5 else self.ask(e, lambda: u.o.max_with([v.o]), fault, lab)
            return [SAff(r) for r in rs[:2]]
        return [SAff(self.ask(e, lambda: u.o.deep_copy(), fault, lab))]

    def step_polytope(self, e, u, v, rng, lab, fault):
        p, d = u.o, u.o.dimension()
        k = rng.choice(["copy", "canon", "canon", "cap", "cap", "scale", "verts"])
        if k == "cap" and v.kind == "polytope" and v.o.dimension() == d:
            r = self.ask(e, lambda: p.intersect(v.o), fault, lab)
            return [SPoly(r, u.m.meet(v.m) if u.m and v.m else None)] if r is not None else []
        if k == "canon":
            self.ask(e, lambda: p.canonicalize(), fault, lab)
            return []
        if k == "scale":
            i, f = rng.randint(1, d), rng.choice([F(2), F(1, 2), F(3)])
            r = self.ask(e, lambda: p.scale(i, f, []), fault, lab)
            return [SPoly(r)]
        if k == "verts" and u.m is not None and d <= 3 and u.m.bounded():
            self.ask(e, lambda: p.get_vertices(), fault, lab)
            return []
        return [SPoly(self.ask(e, lambda: copy.copy(p), fault, lab), u.m)]

    def step_constraint(self, e, u, v, rng, lab, fault):
        return []

    def step_region(self, e, u, v, rng, lab, fault):
        k = rng.choice(["copy", "simplify", "scale", "join"])
        d = u.m.leaves()[0].d
        raw = isinstance(u.o.child, PT.Polytope) and u.o.region_type == RG.Region_Type.COMPLEMENT
        if k == "join" and v.kind == "region" and v.m.leaves()[0].d == d and len(u.m.leaves()) + len(v.m.leaves()) <= 12:
            f, n = rng.choice([(RG.Region.intersect, "I"), (RG.Region.union, "U")])
            return [SReg(self.ask(e, lambda: f([u.o, v.o]), fault, lab), RM(n, [u.m, v.m], dis=False))]
        if k == "scale" and not raw:
            fs = [rng.choice([F(1), F(2), F(1, 2)]) for _ in range(d)]
            r = self.ask(e, lambda: u.o.scale_all(fs), fault, lab)
            return [SReg(r, u.m.map(lambda p: MP(d, [(q[0],) + tuple(c / f for c, f in zip(q[1:], fs)) for q in p.rows],
                                                 [(q[0],) + tuple(c / f for c, f in zip(q[1:], fs)) for q in p.eqs])))]
        if k == "simplify":
            self.ask(e, lambda: u.o.simplify(), fault, lab)
            return []
        return [SReg(self.ask(e, lambda: copy.copy(u.o), fault, lab), u.m)]

    def step_piecewise(self, e, u, v, rng, lab, fault):
        k = rng.choice(["copy", "crop", "min", "simplify"])
        d = u.m
        if k == "crop":
            p = PT.Polytope.rect(*[(F(0), rng.choice([F(1), F(3, 2), F(2)])) for _ in range(d)])
            self.ask(e, lambda: u.o.crop(p), fault, lab)
            return []
        if k == "min" and v.kind == "piecewise" and v.m == d and v is not u and len(u.o.pieces) * len(v.o.pieces) <= 16:
            return [SPw(self.ask(e, lambda: u.o.min_with(v.o), fault, lab), d)]
        if k == "simplify":
            self.ask(e, lambda: u.o.simplify(), fault, lab)
            return []
        return [SPw(self.ask(e, lambda: copy.copy(u.o), fault, lab), d)]

    def step_quotient(self, e, u, v, rng, lab, fault):
        n, d, itv = u.m
        c = F(rng.choice([2, -1, 3]), rng.choice([1, 2]))
        m = ([c * x for x in n], [F(0)] * rng.choice([0, 1]) + list(d), itv)
        return [SRf2(self.ask(e, lambda: FN.RationalFunction2((list(m[0]), list(m[1])), u.o.domain), fault, lab), m)]

    def step_rational(self, e, u, v, rng, lab, fault):
        w = v if v.kind == "rational" else u
        k = rng.choice(["add", "sub", "mul"])
        if len(u.m.d) + len(w.m.d) > 8 or len(u.m.n) + len(w.m.n) > 10:
            return []
        f = {"add": lambda: u.o.add(w.o), "sub": lambda: u.o.subtract(w.o), "mul": lambda: u.o.mul(w.o)}[k]
        return [SRat(self.ask(e, f, fault, lab), u.m.op(w.m, k))]

    def step_polynomial(self, e, u, v, rng, lab, fault):
        w = v if v.kind == "polynomial" else u
        k = rng.choice(["add", "sub", "mul", "copy"])
        a, b = list(u.m), list(w.m)
        if k == "copy":
            return [SPn(self.ask(e, lambda: copy.copy(u.o), fault, lab), a)]
        if k == "mul":
            if len(a) + len(b) > 12:
                return []
            c = [F(0)] * max(0, len(a) + len(b) - 1)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    c[i + j] += x * y
            r = self.ask(e, lambda: u.o * w.o, fault, lab)
        else:
            n = max(len(a), len(b))
            a, b = a + [F(0)] * (n - len(a)), b + [F(0)] * (n - len(b))
            c = [x + (y if k == "add" else -y) for x, y in zip(a, b)]
            r = self.ask(e, (lambda: u.o + w.o) if k == "add" else (lambda: u.o - w.o), fault, lab)
        while c and c[-1] == 0:
            c.pop()
        return [SPn(r, c)]

    def step_hypothesis(self, e, u, v, rng, lab, fault):
        h = u.o
        if u.m and u.m[0] == "lv" and isinstance(h.data, LV.Large_Value_Estimate):
            k = un(gen_power(rng))
            tr = e.must(lambda: LV.raise_to_power_hypothesis(k), lab).value
            r = self.ask(e, lambda: tr.data.transform(h), fault, lab)

            def sc(q):
                return (q[0], q[1], q[2] / k, q[3] / k)
            return [SHyp(r, ("lv", u.m[1].map(lambda p: MP(3, [sc(q) for q in p.rows], [sc(q) for q in p.eqs]))))]
        if isinstance(h.data, (ZD.Zero_Density_Estimate, ZE.Zero_Density_Energy_Estimate)):
            i = h.data.interval
            if isinstance(i.x0, (int, F)) and isinstance(i.x1, (int, F)):
                x = (F(i.x0) + F(i.x1)) / 2
                if i.contains(x):
                    self.ask(e, lambda: h.data.at(x), fault, lab)
            return []
        if isinstance(h.data, BM.Bound_mu) and 0 <= h.data.sigma <= 1:
            return [SHyp(self.ask(e, lambda: BM.apply_functional_equation(h), fault, lab))]
        return []

    def step_store(self, e, u, v, rng, lab, fault):
        if v.kind == "hypothesis":
            self.ask(e, lambda: u.o.add_hypothesis(v.o), fault, lab)
            return []
        return [SSet(self.ask(e, lambda: copy.copy(u.o), fault, lab))]

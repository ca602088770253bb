P = '''from fractions import Fraction as F
from functions import *
from polytope import Polytope, Hyperplane
RF = RationalFunction
'''
bug("F02-crit-open", "F02",
    [("functions.py", '''                SympyHelper.to_frac(r)
                for r in sympy.real_roots(df)
                if interval.contains(r)''', '''                SympyHelper.to_frac(r)
                for r in sympy.real_roots(df, multiple=True)[:2]
                if interval.contains(r)''')],
    P + '''f = RF([F(1), F(0), F(-5), F(0), F(4)])
assert abs(float(f.maximise(Interval(F(-1), F(2)))[1]) - 4) < 1e-9
g = RF([F(1), F(0), F(-2), F(0), F(0)])
assert abs(float(g.minimise(Interval(F(1,2), F(3,2)))[1]) + 1) < 1e-9
''', "a function with three or more stationary points", "only the first two stationary points are looked at")
bug("F02-inter-unique", "F02",
    [("functions.py", '''                SympyHelper.to_frac(r)
                for r in sympy.real_roots(f)
                if interval.contains(r)
            ]
        return []

    def roots''', '''                SympyHelper.to_frac(r)
                for r, k in sympy.polys.polyroots.roots(f).items()
                if r.is_real and interval.contains(r)
            ]
        return []

    def roots''')],
    P + '''f, g = RF([F(1), F(0), F(0), F(0), F(-1), F(1)]), RF([F(0)])
assert len(f.intersections(g, Interval(F(-5), F(5)))) == 1
''', "an intersection that has no expression in radicals", "crossings without a closed form are dropped")
bug("F02-mul-alias", "F02",
    [("functions.py", '''    def mul(self, other):
        r = RationalFunction([])
        if isinstance(other, numbers.Number):''', '''    def mul(self, other):
        r = self if other == 0 else RationalFunction([])
        if isinstance(other, numbers.Number):''')],
    P + '''f = RF([F(1), F(2)])
z = f.mul(0)
assert f.at(F(3)) == 5
''', "multiplying by zero", "multiplying by zero changes the function multiplied")
bug("F01-min-touch", "F01",
    [("functions.py", "                test_x = domain.get_centroid()\n", "                test_x = domain.get_vertices()[0]\n")],
    P + '''D = Polytope.rect((F(0), F(1)), (F(0), F(1)))
ok = True
for a in ([0,1,0],[0,0,1],[0,1,1],[1,-1,0],[1,0,-1],[2,-1,-1],[1,1,-1],[1,-1,1]):
    for s in (1,-1):
        f = Affine2([F(0), F(0), F(0)], D, "a"); g = Affine2([F(s*v) for v in a], D, "b")
        for p, q in ((f, g), (g, f)):
            for x in ([F(1,3), F(1,7)], [F(6,7), F(2,3)]):
                v = Piecewise(p.min_with([q])).at(x)
                ok = ok and v == min(f.at(x), g.at(x))
assert ok
''', "functions that meet exactly in a vertex or edge of the domain", "which function is smaller is decided in a vertex where they may be equal")
bug("F01-crop-first", "F01",
    [("functions.py", "            for i in range(len(self.pieces) - 1, -1, -1):\n                p = self.pieces[i]\n", "            for i in range(len(self.pieces) - 1, 0, -1):\n                p = self.pieces[i]\n")],
    P + '''A = Polytope.rect((F(0), F(1)), (F(0), F(1))); B = Polytope.rect((F(1), F(2)), (F(0), F(1)))
f = Piecewise([Affine2([F(1), F(0), F(0)], A, "a"), Affine2([F(2), F(0), F(0)], B, "b")])
f.crop(Polytope.rect((F(1), F(2)), (F(0), F(1))))
assert f.at([F(1), F(1,2)]) == 2
assert len(f.pieces) == 1
''', "cropping away the first piece", "a piece without interior stays and answers on the boundary")
bug("F01-simplify-key", "F01",
    [("functions.py", "            key = tuple([p.label] + p.a)\n", "            key = tuple(p.a)\n")],
    P + '''A = Polytope.rect((F(0), F(1)), (F(0), F(1))); B = Polytope.rect((F(1), F(2)), (F(0), F(1)))
f = Piecewise([Affine2([F(1), F(0), F(0)], A, "a"), Affine2([F(1), F(0), F(0)], B, "b")])
f.simplify()
assert {p.label for p in f.pieces if p.domain.contains([F(3,2), F(1,2)])} == {"b"}
''', "neighbouring pieces with one function and different labels", "pieces from different sources are merged under one label")
bug("F01-copy-shallow", "F01",
    [("functions.py", "        return Piecewise([copy.copy(p) for p in self.pieces])", "        return Piecewise(list(self.pieces))")],
    P + '''import copy
A = Polytope.rect((F(0), F(2)), (F(0), F(1)))
f = Piecewise([Affine2([F(1), F(0), F(0)], A, "a")]); g = copy.copy(f)
f.crop(Polytope.rect((F(0), F(1)), (F(0), F(1))))
assert g.at([F(3,2), F(1,2)]) == 1
''', "copying and then cropping the original", "a copy shares its pieces with the original")

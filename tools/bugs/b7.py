TX = '''from fractions import Fraction as F
import copy
from polytope import Polytope, Constraint
from region import Region
from functions import Interval, Affine, Affine2, Piecewise
from hypotheses import Hypothesis, Hypothesis_Set
import large_values as LV, bound_beta as BB, bound_mu as BM, exponent_pair as EP, polynomial as PN
from reference import Reference
'''
bug("T01-crop-stale", "T01",
    [("functions.py", '''        return Affine2.to_string(self.a, ch) + f" on {str(self.domain)}"
''', '''        # the text is long to build and asked for repeatedly
        if not hasattr(self, "_text"):
            self._text = Affine2.to_string(self.a, ch) + f" on {str(self.domain)}"
        return self._text
''')],
    TX + '''f = Piecewise([Affine2([F(1), F(2), F(0)], Polytope.rect((F(0), F(2)), (F(0), F(2))))])
a = str(f)
f.crop(Polytope.rect((F(0), F(1)), (F(0), F(1))))
b = str(f)
assert b == str(Piecewise([Affine2([F(1), F(2), F(0)], f.pieces[0].domain)])), (a, b)
''', "a piecewise function printed, then cropped, then printed again", "the domain printed is the one before cropping")
bug("T01-denoms", "T01",
    [("helpers/str_helper.py", '''                f += str(abs(c)) + v
''', '''                f += (str(abs(c)) if getattr(c, "denominator", 1) < 100 else f"{float(abs(c)):.4g}") + v
''')],
    TX + '''p = Polytope([[F(1), F(13, 84), F(-89, 1282)]])
assert "89/1282" in str(p) and "13/84" in str(p), str(p)
''', "a coefficient with a denominator of three digits or more", "such coefficients are printed rounded, so the printed set differs")
bug("T01-nested-vars", "T01",
    [("region.py", '''                s = ("\\t" * indentation) + Region_Type.to_str(region.region_type) + "\\n"
''', '''                if indentation > 0 and not isinstance(region.child, list):
                    variables = None # a single child is printed in its own form
                s = ("\\t" * indentation) + Region_Type.to_str(region.region_type) + "\\n"
'''), ("region.py", '''                    s += Region.to_str(r, use_indentation, indentation + 1, variables)
''', '''                    s += Region.to_str(r, True, indentation + 1, variables)
''')],
    TX + '''P = lambda a: Region.from_polytope(Polytope.rect((F(a), F(a + 1)), (F(0), F(2)), (F(0), F(1))))
r = Region.intersect([P(0), Region.union([P(1), Region.complement(Region.union([P(2), P(3)]))])])
s = r.to_str(variables=["σ", "τ", "ρ"])
assert "x" not in s and "z" not in s, s
''', "an indented region with a complement of a compound region below the top, printed with given variable names", "what is below the complement uses the default names, so the text mixes two sets of variables")
bug("T01-max-dup", "T01",
    [("large_values.py", '''    if len(bounds) > 1:
        repr = f"ρ <= max({', '.join(Str_Helper.format(b, ['σ','τ']) for b in bounds)})"
''', '''    if len(bounds) > 1:
        # bounds that only differ by a constant are comparable
        distinct = {(b[1], b[2]): b for b in sorted(bounds, reverse=True)}
        repr = f"ρ <= max({', '.join(Str_Helper.format(b, ['σ','τ']) for b in distinct.values())})"
''')],
    TX + '''h = LV.literature_bound_LV_max([[F(1), F(-1), F(0)], [F(2), F(-1), F(0)], [F(0), F(0), F(1)]], Reference.make("A", 2000))
assert "2 - σ" in str(h.data), str(h.data)
h = LV.literature_bound_LV_max([[F(2), F(-1), F(0)], [F(0), F(0), F(1)]], Reference.make("A", 2000))
assert "2 - σ" in str(h.data), str(h.data)
''', "an estimate with two bounds of equal slopes", "the printed maximum keeps the smaller of the two")
bug("T01-desc-name", "T01",
    [("hypotheses.py", '''        self.description = data.__repr__()
''', '''        key = (name, hypothesis_type)
        if key not in Hypothesis._descriptions:
            Hypothesis._descriptions[key] = data.__repr__()
        self.description = Hypothesis._descriptions[key]
'''), ("hypotheses.py", '''class Hypothesis:
    def __init__''', '''class Hypothesis:
    _descriptions = {}

    def __init__''')],
    TX + '''R = Reference.make("A", 2000)
a = LV.literature_bound_LV_max([[F(1), F(-1), F(0)]], R)
b = LV.literature_bound_LV_max([[F(2), F(-2), F(1)]], R)
assert b.desc() == b.name + " (" + str(b.data) + ")", b.desc()
''', "two results with the same name and kind, as for two large value estimates of one author", "the second is described with the statement of the first")
bug("T01-half-sign", "T01",
    [("functions.py", '''            if coeffs[i] == 1:
                f += " + " + symbols[i - 1]
            elif coeffs[i] == -1:
''', '''            if coeffs[i] == 1:
                f += " + " + symbols[i - 1]
            elif int(coeffs[i]) == -1:
''')],
    TX + '''f = Affine2([F(1), F(-3, 2), F(2)], Polytope.rect((F(0), F(1)), (F(0), F(1))))
assert "3/2x" in str(f), str(f)
''', "a coefficient strictly between -2 and -1", "such a coefficient is printed as -1")

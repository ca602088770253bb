HP = '''from hypotheses import *
from reference import *
import io, contextlib
def H(n, ref): return Hypothesis(n, "Exponent pair", n, "proof", ref)
L = lambda y: Reference.make("A", y)
'''
bug("H03-rec-memo", "H03",
    [("hypotheses.py", '''        dependency_set = Hypothesis_Set()
        self.add_recursive_dependencies(dependency_set)
        return dependency_set
''', '''        # the expansion of a large tree is expensive, keep it until a dependency is added
        if getattr(self, "_expanded", None) is None or self._expanded[0] != len(self.dependencies):
            dependency_set = Hypothesis_Set()
            self.add_recursive_dependencies(dependency_set)
            self._expanded = (len(self.dependencies), dependency_set)
        return self._expanded[1]
''')],
    HP + '''a, b, c = H("a", L(1990)), H("b", L(1991)), H("c", L(1992))
a.add_dependency(b); assert len(a.recursive_dependencies()) == 1
b.add_dependency(c); assert len(a.recursive_dependencies()) == 2
''', "a query, then a dependency added further down, then the query again", "recursive dependencies are stale")
bug("H03-complexity-shared", "H03",
    [("hypotheses.py", "        return sum(h.proof_complexity() for h in self.dependencies) + 1\n",
      "        return len(self.recursive_dependencies()) + 1\n")],
    HP + '''a, b, c, d = [H(x, L(1990)) for x in "abcd"]
a.add_dependency(b); a.add_dependency(c); b.add_dependency(d); c.add_dependency(d)
assert a.proof_complexity() == 5
''', "two steps of a proof that rest on the same result", "shared steps of a proof are counted once")
bug("H03-date-undated", "H03",
    [("hypotheses.py", '''        if year == "Unknown date":
            year = -1
''', '''        if year == "Unknown date":
            return -1
''')],
    HP + '''a, b = H("a", Reference("x", "article", {})), H("b", L(1990))
a.add_dependency(b); assert a.proof_date() == 1990
''', "an undated result that rests on a dated one", "the dates below an undated result are lost")
bug("H03-print-once", "H03",
    [("hypotheses.py", '''    def recursively_list_proofs(self, indentation=0):
        if len(self.dependencies) > 0:
''', '''    def recursively_list_proofs(self, indentation=0, listed=set()):
        # expand each step only once per listing
        if indentation == 0: listed.clear()
        if len(self.dependencies) > 0 and id(self) not in listed:
            listed.add(id(self))
''')],
    HP + '''a, b, c, d, x = [H(n, L(1990)) for n in "abcdx"]
for p, q in [(a, b), (a, c), (b, d), (c, d), (d, x)]: p.add_dependency(q)
o = io.StringIO()
with contextlib.redirect_stdout(o): a.recursively_list_proofs()
assert o.getvalue().count("[x]") == 2
''', "a proof with a step used twice", "a repeated step is printed without its dependencies")
bug("H03-year-first", "H03",
    [("reference.py", '''        if any(r.year() == "Unknown date" for r in refs):
            return "Unknown date"
        return max(r.year() for r in refs)
''', '''        years = [r.year() for r in refs if r.year() != "Unknown date"]
        if len(years) < len(refs) and len(years) < 2:
            return "Unknown date"
        return max(years)
''')],
    HP + '''r = [L(1990), L(1995), Reference("x", "article", {})]
assert Reference.max_year(r) == "Unknown date"
''', "an undated reference beside at least two dated ones", "a result that rests on an undated one gets a date")
RP = '''from reference import *
import tempfile, os
def load(t, m=None):
    d = tempfile.mkdtemp(); p = os.path.join(d, "x.bib"); open(p, "w").write(t)
    m = m or Reference_Manager(p); m.path = p; m.load(); os.remove(p); os.rmdir(d); return m
'''
bug("R01-clear-first", "R01",
    [("reference.py", '''        file = open(self.path, "r")
''', '''        known, self.refs = self.refs, {}
        file = open(self.path)
'''), ("reference.py", '''        file.close()

        # parse file
''', '''        file.close()
        self.refs = known

        # parse file
''')],
    RP + '''m = load("@article{a, title = {T}, year = {1990}}")
try: m.load()
except OSError: pass
assert m.get("a").year() == 1990
''', "a load that fails while reading the file", "a failed load loses every reference loaded before")
bug("R01-kvp-level", "R01",
    [("reference.py", '''            kvp = self._split_level(e, "{", "}", "=", 0)
''', '''            kvp = e.split("=")
''')],
    RP + '''m = load("@article{a, title = {Case x = y of z}, year = {1990}}")
assert m.get("a").entries["title"] == "Case x = y of z"
''', "a field value with an equals sign", "field values end at an equals sign")
bug("R01-and", "R01",
    [("reference.py", '''[p.strip() for p in s.split(" and ")]''', '''[p.strip() for p in s.split("and")]''')],
    RP + '''m = load("@article{a, author = {Anderson, R. and Brandes, J.}, year = {1990}}")
assert m.get("a").author() == "Anderson--Brandes"
''', "an author whose name contains 'and'", "author names are cut")
bug("R01-strip-close", "R01",
    [("reference.py", '''            if c == close_brace:
                level -= 1
            if level >= 1:
                chs.append(c)
            if c == open_brace:
                level += 1
        return "".join(chs)
''', '''            if c == close_brace:
                level -= 1
                if level == 0: break
            if level >= 1:
                chs.append(c)
            if c == open_brace:
                level += 1
        return "".join(chs).rstrip("}")
''')],
    RP + '''m = load("@article{a, title = {On sums {and {primes}}}, year = {1990}}")
assert m.get("a").entries["title"] == "On sums {and {primes}}", m.get("a").entries
''', "a value that ends in a nested group", "closing braces at the end of a value are lost")

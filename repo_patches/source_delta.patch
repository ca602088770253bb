From 1070b3cf7026287d0eda6c5494a699717f3c7bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 01/61] fix: keep cached exponent-pair hull separate from the
 mu hull, and per copy

Both hulls were stored under the same key of Hypothesis_Set.data behind one
validity flag, and shallow copies shared the dictionary, so a query could be
answered from the other kind of hull, from another set's hull or from a hull
computed before the latest additions.
---
 blueprint/src/python/exponent_pair.py |  8 ++++----
 blueprint/src/python/hypotheses.py    | 12 +++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index f7c57ec..a73680c 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -141,16 +141,16 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
 
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "exp_pair_convex_hull" not in hypothesis_set.data:
         if len(pairs) < 3:
-            hypothesis_set.data["convex_hull"] = list(pairs)
+            hypothesis_set.data["exp_pair_convex_hull"] = list(pairs)
         else:
             conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
             vertices = [pairs[v] for v in conv.vertices]
-            hypothesis_set.data["convex_hull"] = vertices
+            hypothesis_set.data["exp_pair_convex_hull"] = vertices
             hypothesis_set.data_valid = True
 
-    return hypothesis_set.data["convex_hull"]
+    return hypothesis_set.data["exp_pair_convex_hull"]
 
 def beta_bounds_to_exponent_pairs(
         hypothesis_set: Hypothesis_Set,
diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index b6bbd84..3af0ee0 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -140,7 +140,7 @@ class Hypothesis_Set:
     # Shallow copy, the hypothesis objects are not cloned
     def __copy__(self):
         copy = Hypothesis_Set(self.hypotheses)
-        copy.data = self.data
+        copy.data = dict(self.data)  # the copy maintains its own cached data
         copy.data_valid = self.data_valid
         return copy
 
@@ -170,7 +170,13 @@ class Hypothesis_Set:
     def add_hypothesis(self, hypothesis, invalidate_data=True):
         self.hypotheses.add(hypothesis)
         if invalidate_data:
-            self.data_valid = False
+            self.invalidate_data()
+
+    # Discard all precomputed, cached data. All entries are removed, so that 
+    # recomputing one of them does not make the others look valid again.
+    def invalidate_data(self):
+        self.data_valid = False
+        self.data = {}
 
     # Adds a set or list of hypotheses, an individual hypothesis, or a Hypothesis_Set
     def add_hypotheses(self, new_hypotheses, invalidate_data=True):
@@ -183,7 +189,7 @@ class Hypothesis_Set:
         else:
             self.hypotheses.update(new_hypotheses)
             if invalidate_data:
-                self.data_valid = False
+                self.invalidate_data()
 
     # return all hypotheses of a given type, and (optionally) up to a given year.  Note: is now returning a Hypothesis_Set rather than a list
     def list_hypotheses(self, hypothesis_type="Any", year="Any"):
-- 
2.43.0


From f6fe354938c6ea19ddfc2f3e4c40553cc55afc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 02/61] fix: best_mu_bound_piecewise with only the trivial
 bounds

With fewer than three points the hull computation failed, unless
best_mu_bound had been called on the same set first.
---
 blueprint/src/python/bound_mu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 3084b19..9dfbbde 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -242,6 +242,8 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     # to avoid repeatedly computing it for multiple values of sigma.
     if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
         bounds = get_bounds(hypothesis_set)
+        # Include a placeholder point, for the same reason as in best_mu_bound
+        bounds.append(conjecture_bound_mu(1 / 2, 10, "Placeholder"))
         compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-- 
2.43.0


From 3394808ff7bd873d441e59cd49b6aa2400858d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 03/61] fix: best_mu_bound_piecewise on intervals outside the
 critical strip

The recursion on the part inside [0, 1] was built from an empty interval and
raised ValueError.
---
 blueprint/src/python/bound_mu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 9dfbbde..7595664 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -227,6 +227,12 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     if sigma0 > sigma1:
         raise ValueError("sigma0 must be <= sigma1")
 
+    # deal with intervals contained in the region where mu is known
+    if sigma1 <= 0:
+        return [("-x + 1/2", sigma0, sigma1)]
+    if sigma0 >= 1:
+        return [("0", sigma0, sigma1)]
+
     # deal with edge pieces
     if sigma0 < 0:
         return [("-x + 1/2", sigma0, 0)] + best_mu_bound_piecewise(
-- 
2.43.0


From 79f5635f53a89c144d36d19a3f160a7297941cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 04/61] fix: best_mu_bound_piecewise skips the edges of the
 upper hull

Building an interval from such an edge raised ValueError whenever the queried
interval reached it, e.g. on [0, 1], or after best_mu_bound had cached a hull
with the placeholder point.
---
 blueprint/src/python/bound_mu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 7595664..d42edbe 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -258,7 +258,8 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     for i in range(len(verts)):
         b1 = verts[i].data
         b2 = verts[(i + 1) % len(verts)].data
-        if b2.sigma < sigma0 or b1.sigma > sigma1: 
+        # edges running from right to left belong to the upper hull
+        if b1.sigma >= b2.sigma or b2.sigma < sigma0 or b1.sigma > sigma1: 
             continue
         interval = Interval(max(sigma0, b1.sigma), min(sigma1, b2.sigma))
         if b1.sigma < b2.sigma and not interval.is_empty():
-- 
2.43.0


From cfcb1938ffeb51e456e739c28c69672d0678ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 05/61] fix: hulls of exponent pairs that all lie on a line

Three or more collinear pairs, e.g. (0, 1), (1/4, 3/4), (1/2, 1/2), made every
hull computation fail with QhullError.
---
 blueprint/src/python/exponent_pair.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index a73680c..87ed354 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -69,6 +69,17 @@ exponent_pair_conjecture = Hypothesis(
 
 ###############################################################################
 
+# Returns the exponent pairs (in a list of Hypothesis) that are vertices of their 
+# convex hull. If they all lie on a line, these are the endpoints of a segment. 
+def hull_vertices(pairs: list) -> list:
+    pts = [(p.data.k, p.data.l) for p in pairs]
+    if len(pts) < 3: return list(pairs)
+    lo, hi = min(pts), max(pts)
+    if all((p[0] - lo[0]) * (hi[1] - lo[1]) == (p[1] - lo[1]) * (hi[0] - lo[0]) for p in pts):
+        return [pairs[i] for i in sorted({pts.index(lo), pts.index(hi)})]
+    conv = ConvexHull(np.array(pts))
+    return [pairs[v] for v in conv.vertices]
+
 def compute_exp_pairs(
         hypothesis_set: Hypothesis_Set, 
         search_depth: int = 5, 
@@ -113,8 +124,7 @@ def compute_exp_pairs(
             if len(pairs) < 3:
                 continue  # Don't prune if set is too small
             pairs = [p for p in pairs.values()]
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            verts = [pairs[v] for v in conv.vertices]
+            verts = hull_vertices(pairs)
             pairs = {(p.data.k, p.data.l): p for p in verts}
 
     return [p for p in pairs.values()]
@@ -145,8 +155,7 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
         if len(pairs) < 3:
             hypothesis_set.data["exp_pair_convex_hull"] = list(pairs)
         else:
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            vertices = [pairs[v] for v in conv.vertices]
+            vertices = hull_vertices(pairs)
             hypothesis_set.data["exp_pair_convex_hull"] = vertices
             hypothesis_set.data_valid = True
 
-- 
2.43.0


From f2fccc6682326a23fc1ef9e5ef0f957b8a854b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 06/61] fix: construct_proof finds the containing triangle in
 either orientation

in_triangle rejected triangles listed clockwise and accepted degenerate ones
that do not contain the point, so proofs depended on the order in which the
hypotheses were listed: they failed with TypeError, were needlessly complex, or
cited exponent pairs that do not imply the claim.
---
 blueprint/src/python/exponent_pair.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 87ed354..6113498 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -268,6 +268,14 @@ def in_triangle(a, b, c, p):
      d = ((b[1] - c[1])*(a[0] - c[0]) + (c[0] - b[0])*(a[1] - c[1]))
      x = ((b[1] - c[1])*(p[0] - c[0]) + (c[0] - b[0])*(p[1] - c[1]))
      y = ((c[1] - a[1])*(p[0] - c[0]) + (a[0] - c[0])*(p[1] - c[1]))
+     if d == 0:
+         # Degenerate triangle (a segment or a point)
+         lo, hi = min(a, b, c), max(a, b, c)
+         on_line = (hi[0] - lo[0]) * (p[1] - lo[1]) == (hi[1] - lo[1]) * (p[0] - lo[0])
+         return on_line and lo <= tuple(p) <= hi
+     if d < 0:
+         # The vertices are in clockwise order
+         d, x, y = -d, -x, -y
      return 0 <= x and x <= d and 0 <= y and y <= d and x + y <= d
 
 def construct_proof(
@@ -342,10 +350,11 @@ def construct_proof(
     if deep_search: verts = ephs
 
     # Perform a naive brute-force search in O(n^3) time
-    for tri in itertools.combinations(verts, 3):
+    # (if there are only two vertices, the triangle degenerates to a segment)
+    for tri in itertools.combinations(verts, min(3, len(verts))):
         if in_triangle((tri[0].data.k, tri[0].data.l),
                         (tri[1].data.k, tri[1].data.l),
-                        (tri[2].data.k, tri[2].data.l),
+                        (tri[-1].data.k, tri[-1].data.l),
                         (k, l)):
             comp = sum(v.proof_complexity() for v in tri)
             if comp < lowest_comp:
-- 
2.43.0


From 9675e08990011e2e99e3695de6e0575f24b6bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 07/61] fix: find_best_proof by date with conjectures or
 undated results

The range of years could not be formed when the set contained a conjecture
(infinite year) or no dated hypothesis.
---
 blueprint/src/python/exponent_pair.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 6113498..34995a1 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -410,19 +410,16 @@ def find_best_proof(
     # Generate a proof of the exponent pair (k, l) by minimising the date of the
     # last dependency
     if method == Proof_Optimization_Method.DATE:
-        from_year = min(
+        # (conjectures have an infinite year; results of unknown date are always 
+        # assumed to be known)
+        years = sorted({-1} | {
             h.reference.year()
             for h in hypotheses
             if h.reference.year() != "Unknown date"
-        )
-        to_year = max(
-            h.reference.year()
-            for h in hypotheses
-            if h.reference.year() != "Unknown date"
-        )
+        })
 
         num_hypotheses = 0
-        for year in range(from_year, to_year + 1):
+        for year in years:
             hyps = Hypothesis_Set(
                 h
                 for h in hypotheses
-- 
2.43.0


From 38331b4b14f351e30650c9e1fef52ed47fa21bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 08/61] fix: piecewise comparison of affine functions crops
 every piece

Where only the first function was defined, the function itself was returned as
the piece: with its whole domain, shared between pieces, and modified by later
merging (compute_best_beta_bounds then failed with TypeError).
---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7553b46..ad68f85 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -246,7 +246,7 @@ class Affine:
                 x = crits[i]
                 interval = Interval(x, x, True, True)
                 if domain is None or domain.contains(x):
-                    p = self if self.domain.contains(x) else None
+                    p = compare_f(None, self, interval) if self.domain.contains(x) else None
                     for f in f2:
                         if f.domain.contains(x):
                             p = compare_f(p, f, interval)
@@ -258,7 +258,7 @@ class Affine:
             # Consider the interval (crits[i], crits[i + 1])
             interval = Interval(crits[i], crits[i + 1], False, False)
             test_x = interval.midpoint()
-            p = self if self.domain.contains(test_x) else None
+            p = compare_f(None, self, interval) if self.domain.contains(test_x) else None
             for f in f2:
                 if f.domain.contains(test_x):
                     p = compare_f(p, f, interval)
-- 
2.43.0


From 47164bdebe6fd0e09eafcd4f243ce06b03485b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 09/61] fix: find_best_proof without preference uses the pairs
 it derived

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 34995a1..41a76b8 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -472,6 +472,6 @@ def find_best_proof(
         hyps = copy.copy(hypotheses)
         hyps.add_hypotheses(beta_bounds_to_exponent_pairs(hyps))
         hyps.add_hypotheses(compute_exp_pairs(hyps, prune=True))
-        return construct_proof(k, l, hypotheses, deep_search=False, reduce_dependencies=False)
+        return construct_proof(k, l, hyps, deep_search=False, reduce_dependencies=False)
     else:
         raise NotImplementedError()
-- 
2.43.0


From 89f3469e4f3fc87e85d333e4df31b848e54f7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 10/61] fix: polytopes built from points list only their
 vertices and consistent edges

---
 blueprint/src/python/polytope.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 20fbda6..43e1db1 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -345,12 +345,8 @@ class Polytope:
         poly = cdd.Polyhedron(V)
         H = poly.get_inequalities()
 
-        p = Polytope([])  # Construct an empty polytope temporarily
-        p.mat = H
-        p.polyhedron = poly
-        p.vertices = copy.copy(verts)  # Shallow copy is fine for now
-        p.rays = []
-        return p
+        # Do not keep verts or poly: some of the given points may not be vertices
+        return Polytope._from_mat(H)
 
     # -------------------------------------------------------------------------
     # public instance functions
-- 
2.43.0


From 4b919534f4d268801c70e66b202dc8d6a68358e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 11/61] fix: substituting into a polytope keeps its interior
 when a constraint becomes trivial

---
 blueprint/src/python/polytope.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 43e1db1..9029230 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -717,9 +717,16 @@ class Polytope:
             new_row.extend(r[i] for i in range(1, len(r)) if i - 1 not in values)
             new_rows.append(new_row)
         
+        # Constraints that no longer involve any variable and hold with equality (0 >= 0
+        # or 0 = 0) are redundant, but would make the interior look empty. Replace them
+        # with 1 >= 0.
+        trivial = {i for i in range(len(new_rows)) if all(c == 0 for c in new_rows[i])}
+        for i in trivial:
+            new_rows[i][0] = 1
+
         new_mat = cdd.Matrix(new_rows)
         new_mat.rep_type = cdd.RepType.INEQUALITY
-        new_mat.lin_set = self.mat.lin_set # copy over the lin set
+        new_mat.lin_set = frozenset(self.mat.lin_set) - trivial # copy over the lin set
         return Polytope._from_mat(new_mat)
 
     # Given a set of integers representing the indices of dimensions, returns a 
-- 
2.43.0


From 8d418a7c813df6aafd1bfd2726ac995af07bf6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 12/61] fix: removing a flat polytope from a polytope loses
 nothing

---
 blueprint/src/python/polytope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 9029230..bb5cb79 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -538,10 +538,12 @@ class Polytope:
         
         # Iterate through the constraints of B. For each constraint, take its 
         # complement, then add the original constraint to the set of constraints
-        # for the new region. All linear constraints are ignored (see above for 
-        # rationale)
+        # for the new region. If B has linear constraints, then it has no interior
+        # and nothing is removed (see above for rationale)
         A = self.mat.copy()
         B = other.mat
+        if len(B.lin_set) > 0:
+            return [] if simplify and self.is_empty(include_boundary=False) else [self]
         polys = []
         for i in range(B.row_size):
             if i in B.lin_set: continue
-- 
2.43.0


From 1ae7a4352e779a290c91d81e794be8dd08d06f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 13/61] fix: subset test for unbounded polytopes

---
 blueprint/src/python/polytope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index bb5cb79..3c84e8e 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -664,6 +664,10 @@ class Polytope:
             mat.obj_func = ab
             lp = cdd.LinProg(mat)
             lp.solve()
+            # No optimal solution: either P1 is empty (and a subset of everything), or
+            # the constraint is unbounded below on P1
+            if lp.status != cdd.LPStatusType.OPTIMAL:
+                return self.is_empty()
             if lp.obj_value < 0:
                 return False
         return True
-- 
2.43.0


From ccad7c32e02b2248b9f2b73f8b026d2eb5e92836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 14/61] fix: an interrupted get_edges does not mix old vertices
 with new edges

---
 blueprint/src/python/polytope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 3c84e8e..1754aef 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -411,8 +411,8 @@ class Polytope:
         if not self.is_canonical:
             self.canonicalize() 
             # Need to reset polyhedron and recompute vertices
+            self.vertices = None
             self.polyhedron = cdd.Polyhedron(self.mat)
-            self.compute_V_rep()
         
         # Check if V rep is already computed 
         if self.vertices is None:
-- 
2.43.0


From 6698bc1f2972fd338a6c8e823e5d77eeb4de879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 15/61] fix: copying a region copies its polytopes, so that
 labels are not shared

---
 blueprint/src/python/region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a7a3ac1..63446c7 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -50,6 +50,8 @@ class Region:
         return self.to_str(0)
 
     def __copy__(self):
+        if isinstance(self.child, list):
+            return Region(self.region_type, [copy.copy(c) for c in self.child])
         return Region(self.region_type, copy.copy(self.child))
         
     def to_str(region, use_indentation=True, indentation=0, variables=None):
-- 
2.43.0


From 15652d991a75353c25337f40e7976c941b4e89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 16/61] fix: printing the complement of a region

---
 blueprint/src/python/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 63446c7..84fbd27 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -62,7 +62,7 @@ class Region:
                 return ("\t" * indentation) + p + "\n"
             else:
                 s = ("\t" * indentation) + Region_Type.to_str(region.region_type) + "\n"
-                for r in region.child:
+                for r in (region.child if isinstance(region.child, list) else [region.child]):
                     s += Region.to_str(r, use_indentation, indentation + 1, variables)
                 return s
             
@@ -72,7 +72,7 @@ class Region:
                 return str(region.child) if variables is None else region.child.to_str(variables)
             else:
                 return Region_Type.to_str(region.region_type) + " of {" + \
-                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in region.child) + "}"
+                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in (region.child if isinstance(region.child, list) else [region.child])) + "}"
     
 
     # Private methods --------------------------------------------------------
-- 
2.43.0


From 586d0ee4a2783bcdf342e4274c4d317b7491ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 17/61] fix: projection of an intersection with one or with an
 empty member

---
 blueprint/src/python/region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 84fbd27..3fa109e 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -236,9 +236,9 @@ class Region:
         
         if self.region_type == Region_Type.INTERSECT:
             ps = [c.project(dims) for c in self.child]
-            ps = [p for p in ps if p is not None]
-            if len(ps) == 0: return None
-            if len(ps) == 1: return ps[1]
+            # An intersection with an empty set is empty
+            if any(p is None for p in ps): return None
+            if len(ps) == 1: return ps[0]
             return Region(Region_Type.INTERSECT, ps)
         
         # In particular, complements are not yet supported. 
-- 
2.43.0


From ba82541c210d14c69c1c9815476397e9e78322a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 18/61] fix: inclusion of a polytope in a union of regions

---
 blueprint/src/python/region.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 3fa109e..536f5d3 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -183,7 +183,10 @@ class Region:
             if region.region_type == Region_Type.POLYTOPE:
                 return self.child.is_subset_of(region.child)
             elif region.region_type == Region_Type.UNION or region.region_type == Region_Type.DISJOINT_UNION:
-                return self.child.is_covered_by(region.child)
+                polys = [r.child if isinstance(r, Region) else r for r in region.child]
+                if not all(isinstance(p, Polytope) for p in polys):
+                    raise NotImplementedError()
+                return self.child.is_covered_by(polys)
             elif region.region_type == Region_Type.INTERSECT:
                 return all(self.is_subset_of(p) for p in region.child)
         
-- 
2.43.0


From b635a1188c2f5d5e8287bd66c4c5882c8d542744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 19/61] fix: lifting the complement of a region

---
 blueprint/src/python/region.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 536f5d3..9e8f1eb 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -255,8 +255,21 @@ class Region:
                                     Region_Type.DISJOINT_UNION, Region_Type.INTERSECT, Region_Type.COMPLEMENT}:
             raise NotImplementedError("lifting operation is not implemented for the region_type {self.region_type}.")
         
-        if self.region_type in {Region_Type.POLYTOPE, Region_Type.COMPLEMENT}:
+        if self.region_type == Region_Type.POLYTOPE:
             return Region(Region_Type.POLYTOPE, self.child.lift(var))
+
+        if self.region_type == Region_Type.COMPLEMENT:
+            # The limits along the new dimensions apply to the complement too
+            limits = []
+            for i in range(len(var)):
+                if isinstance(var[i], tuple):
+                    row = [0] * (len(var) + 1)
+                    row[i + 1] = 1
+                    limits.append([-var[i][0]] + row[1:])               # x[i] >= lower
+                    limits.append([var[i][1]] + [-c for c in row[1:]])  # x[i] <= upper
+            lifted = Region.complement(self.child.lift(var))
+            if len(limits) == 0: return lifted
+            return Region.intersect([lifted, Region.from_polytope(Polytope(limits))])
         
         return Region(self.region_type, [c.lift(var) for c in self.child])
 
-- 
2.43.0


From 40ea3c6b633fdbd2a491334125fd587d12486917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 20/61] fix: dependencies of an intersection include what
 removed other parts

---
 blueprint/src/python/region.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 9e8f1eb..edf1eb0 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -375,6 +375,8 @@ class Region:
                 #     continue
                 
                 new_A = []
+                # The polytopes of A and B that are entirely kept
+                kept_A, kept_B = set(), set()
                 for p in A:
                     inters = []
                     for q in B:
@@ -382,8 +384,10 @@ class Region:
                         # first, which tend to occur frequently in practice
                         if p.is_subset_of(q):
                             inters.append(p)
+                            kept_A.add(id(p))
                         elif q.is_subset_of(p):
                             inters.append(q)
+                            kept_B.add(id(q))
                         else:
                             inter = p.intersect(q)
                             if not inter.is_empty(include_boundary=False):
@@ -407,7 +411,14 @@ class Region:
                     # being tracked) will propagate automatically
                     new_A.extend(inters)
 
-                
+                # If parts of A are removed because of B then the result depends on
+                # all of B, and conversely
+                if track_dependencies and any(id(p) not in kept_A for p in A):
+                    extra = set().union(*[q.dependencies for q in B])
+                    if any(id(q) not in kept_B for q in B):
+                        extra = extra.union(*[p.dependencies for p in A])
+                    for p in new_A: p.dependencies = p.dependencies | extra
+
                 # [[Ad-hoc performance optimisation]]
                 # Every few rounds, simplify if the number of polytopes is too large
                 if (i % SIMPLIFY_EVERY == 0 and len(new_A) >= 100):
-- 
2.43.0


From 33ca60fedc6c65c189e1e9afea48f12c443b7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 21/61] fix: best mu bounds use the functional equation for
 bounds left of 1/2 too

---
 blueprint/src/python/bound_mu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index d42edbe..ca9344e 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -158,10 +158,10 @@ def get_bounds(hypothesis_set):
     bounds.extend(obtain_mu_bound_from_exponent_pair(p) for p in exp_pairs)
 
     # add bounds coming from the functional equation
-    for bound in bounds:
+    for bound in list(bounds):
         # mpmath does not currently support comparisons between Fraction and
-        # the mpf object, use this for now to determine whether sigma > 1/2
-        if 2 * bound.data.sigma > 1:
+        # the mpf object, use this for now to determine whether sigma = 1/2
+        if 2 * bound.data.sigma != 1:
             bounds.append(apply_functional_equation(bound))
     return bounds
 
-- 
2.43.0


From 17cb3f15f3785c5a6fe2c71ab178b168c912e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 22/61] fix: trivial zeta large value estimate is built from a
 region

---
 blueprint/src/python/zeta_large_values.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 6d4f6dc..5c96e83 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -16,18 +16,18 @@ from region import Region, Region_Type
 # LV_zeta(s, t) \leq t for 1/2 \leq \s \leq 1, t \geq 0
 def get_trivial_zlv():
     # Trivial estimate
-    domain = Polytope(
-        [
-            [-frac(1, 2), 1, 0],  # \sigma > 1/2
-            [1, -1, 0],  # \sigma <= 1
-            [-2, 0, 1],  # \tau >= 2
-            [Constants.TAU_UPPER_LIMIT, 0, -1],  # \tau <= some large number
-        ]
-    )
+    region = Region.from_polytope(Polytope([
+        [0, 0, 1, -1],              # \rho <= \tau
+        [0, 0, 0, 1],               # \rho >= 0
+        [-frac(1, 2), 1, 0, 0],     # \sigma >= 1/2
+        [1, -1, 0, 0],              # \sigma <= 1
+        [-2, 0, 1, 0],              # \tau >= 2
+        [Constants.TAU_UPPER_LIMIT, 0, -1, 0],  # \tau <= some large number
+    ]))
     trivial = Hypothesis(
         "Trivial zeta large value estimate",
         "Zeta large value estimate",
-        lv.Large_Value_Estimate(Piecewise([Affine2([0, 0, 1], domain)])),
+        lv.Large_Value_Estimate(region),
         "Trivial",
         Reference.trivial(),
     )
-- 
2.43.0


From eb22af37f2fdfc964853472d7829fe048a0f1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 23/61] fix: citation of zeta large value estimates from the
 literature

---
 blueprint/src/python/zeta_large_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 5c96e83..cafc042 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -40,7 +40,7 @@ def literature_bound_ZLV_Max(bounds, ref, params=""):
         f"{ref.author()} ({ref.year()}) zeta large value estimate{params}",
         "Zeta large value estimate",
         hyp.data,
-        f"See [{ref.author(), ref.year()}]",
+        f"See [{ref.author()}, {ref.year()}]",
         ref,
     )
 
-- 
2.43.0


From f869ad4e528b02c06beaeaa252b6b27e455ce691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 24/61] fix: large value region without large value estimates
 is the domain

---
 blueprint/src/python/zero_density_estimate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 4d50b7f..e72a1d3 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -220,12 +220,16 @@ def compute_large_value_region(
 
     # Compute the large value energy bounding region
     # LV_region = Region(Region_Type.INTERSECT, [domain] + [h.data.region for h in hyps])
-    LV_region = Region.intersect(regions)
-    LV_region = LV_region.as_disjoint_union(verbose=debug, track_dependencies=True)
+    if len(regions) == 0:
+        # Without large value estimates nothing is excluded from the domain
+        LV_region = copy.copy(domain).as_disjoint_union(verbose=debug)
+    else:
+        LV_region = Region.intersect(regions)
+        LV_region = LV_region.as_disjoint_union(verbose=debug, track_dependencies=True)
 
     # Calculate dependency set using labels
     deps = set()
-    for r in LV_region.child:
+    for r in (LV_region.child if len(regions) > 0 else []):
         deps = deps | r.child.dependencies
     deps = set(hyps[d] for d in deps if d >= 0)
 
-- 
2.43.0


From 22a15f9e31cdcf8b146e241ae13ecd8e04732eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 25/61] fix: dependencies of an empty large value region

---
 blueprint/src/python/zero_density_estimate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index e72a1d3..d353b26 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -231,6 +231,9 @@ def compute_large_value_region(
     deps = set()
     for r in (LV_region.child if len(regions) > 0 else []):
         deps = deps | r.child.dependencies
+    if len(LV_region.child) == 0:
+        # Nothing is left to carry a label: the estimates together exclude the domain
+        deps = set(range(len(hyps)))
     deps = set(hyps[d] for d in deps if d >= 0)
 
     # Construct hypothesis object and return
-- 
2.43.0


From a8197a7f0ec6b8096a2b7148f6f27f9fbcf8a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 26/61] fix: zeta large value domain of Corollary 11.8 is
 bounded by 4/3 tau0 and by the sigma range

---
 blueprint/src/python/zero_density_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index d353b26..8ff7e1d 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -447,8 +447,8 @@ def lv_zlv_to_zd2(
         Region.from_polytope(
             Polytope([
                 [-2, 0, 1, 0], # tau >= 2
-                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, 1, 0] # tau <= 4/3 * tau0
-            ])
+                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, -1, 0] # tau <= 4/3 * tau0
+            ] + sigma_rho_constraints)
         ),
         zeta = True
     )
-- 
2.43.0


From f0d0d314050a6ab0b5cea9baf910f24dfb806ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 27/61] fix: placeholder of the best energy bound is an energy
 estimate

---
 blueprint/src/python/zero_density_energy_estimate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index e49d2a4..de11277 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -345,10 +345,10 @@ def compute_best_energy_bound(hypotheses: Hypothesis_Set) -> list:
         if ref < 0:
             best_bound.append(
                 Hypothesis(
-                    "Placeholder zero density estimate",
-                    "Zero density estimate",
+                    "Placeholder zero density energy estimate",
+                    "Zero density energy estimate",
                     zde,
-                    "Placeholder zero density estimate",
+                    "Placeholder zero density energy estimate",
                     Reference.trivial(),
                 )
             )
-- 
2.43.0


From f2f9cc3e2ae1341a9a77d30e4e368b513c74332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 28/61] fix: crossings of rational functions that the symbolic
 solver returns as complex numbers

---
 blueprint/src/python/functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index ad68f85..fbd56a9 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -826,6 +826,13 @@ class RationalFunction:
             for (func2, in2, ref2) in best_bound:
                 solns = sympy.solve(func1.num / func1.den - func2.num / func2.den)
                 crits = set(SympyHelper.to_frac(soln) for soln in solns if soln.is_real)
+                # Real solutions may also be represented by complex radicals or by
+                # complex numbers with a vanishing imaginary part
+                for soln in solns:
+                    if not soln.is_real:
+                        (re, im) = sympy.N(soln).as_real_imag()
+                        if abs(im) < 1e-12:
+                            crits.add(float(re))
                 crits.update([in1.x0, in1.x1])
                 crits = set(c for c in crits if in2.contains(c))
                 crits.update([in2.x0, in2.x1])
-- 
2.43.0


From edcf572f8ae181b0f0e3dc98b1382984e29cae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 29/61] fix: projection of a union with one nonempty piece
 remains a union

---
 blueprint/src/python/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index edf1eb0..4ebf076 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -234,7 +234,7 @@ class Region:
             ps = [c.project(dims) for c in self.child]
             ps = [p for p in ps if p is not None]
             if len(ps) == 0: return None
-            if len(ps) == 1: return ps[0]
+            # Remain a union even with one piece left, as users of the projection expect
             return Region(Region_Type.UNION, ps)
         
         if self.region_type == Region_Type.INTERSECT:
-- 
2.43.0


From 27e11487f3838bbe699ce85b765037bdfe229571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 30/61] fix: large value region of an empty energy region

---
 blueprint/src/python/additive_energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/additive_energy.py b/blueprint/src/python/additive_energy.py
index d2dfd2a..5b1fa2b 100644
--- a/blueprint/src/python/additive_energy.py
+++ b/blueprint/src/python/additive_energy.py
@@ -398,6 +398,10 @@ def lver_to_lv(hypothesis: Hypothesis) -> Hypothesis:
 
     # Project onto the dimensions (sigma, tau, rho)
     proj = region.project({0, 1, 2})
+
+    # Handle empty projections 
+    if proj is None: return None
+
     proj.simplify()
 
     # Pack into Hypothesis object
-- 
2.43.0


From 235449ada1000c8095925585184395f9de57e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 31/61] fix: trivial energy estimates from computed density
 estimates

---
 blueprint/src/python/zero_density_energy_estimate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index de11277..d903a1e 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -155,11 +155,10 @@ def add_trivial_zero_density_energy_estimates(hypotheses: Hypothesis_Set):
     # add zero density energy estimates arising from A(sigma)
     zdes = hypotheses.list_hypotheses(hypothesis_type="Zero density estimate")
     for zde in zdes:
-        hypotheses.add_hypothesis(
-            trivial_zero_density_energy_estimate(
-                Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
-            )
-        )
+        energy = Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
+        # The expression of a computed bound is for display only (and may not be parsable)
+        if zde.data.bound is not None: energy.bound = zde.data.bound.mul(3)
+        hypotheses.add_hypothesis(trivial_zero_density_energy_estimate(energy))
     
     # add zero density energy estimates arising from A*(1/2) = 6 and non-increasingness
     # of (1 - \sigma) A*(\sigma), which implies A*(\sigma) \leq 3/(1-\sigma) for \sigma
-- 
2.43.0


From bb3f4af141b4f076ec27f5cf443c7ab7fbabfe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 32/61] fix: zero density estimates from empty energy regions

---
 blueprint/src/python/zero_density_estimate.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 8ff7e1d..de2c1c3 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -503,18 +503,20 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
     if LVER is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup1))
+        if proj is not None:
+            proj.simplify()
+            sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup1))
         deps.update(list(LVER.dependencies))
         depcount[0] = len(LVER.dependencies)
 
     if LVER_zeta is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER_zeta.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup2))
+        if proj is not None:
+            proj.simplify()
+            sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup2))
         deps.update(list(LVER_zeta.dependencies))
         depcount[1] = len(LVER_zeta.dependencies)
 
@@ -528,7 +530,7 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
         derived_zero_density_estimate(
             Zero_Density_Estimate.from_rational_func(s[0], s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
-            "and {depcount[1]} zeta large value energy regions",
+            f"and {depcount[1]} zeta large value energy regions",
             deps
         )
         for s in sup
-- 
2.43.0


From f901d6097bd870c6c2dde853f78ea8d8e67ec790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 33/61] fix: subtracting rational functions with the - operator

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index fbd56a9..c611fbf 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -782,7 +782,7 @@ class RationalFunction:
         return self.add(other)
     
     def __sub__(self, other):
-        return self.sub(other)
+        return self.subtract(other)
 
     def __mul__(self, other):
         return self.mul(other)
-- 
2.43.0


From 1b7f3240cb4a97405f99d8999c483169497528c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 34/61] fix: dividing a rational function by a number divides

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index c611fbf..5ba53fe 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -948,8 +948,8 @@ class RationalFunction:
     def div(self, other):
         r = RationalFunction([])
         if isinstance(other, numbers.Number):
-            r.num = self.num * other
-            r.den = self.den
+            r.num = self.num
+            r.den = self.den * other
             return r
         if isinstance(other, RationalFunction):
             r.num = self.num * other.den
-- 
2.43.0


From 8fbc813d08a45b256432c38d5dbe34cecdb83d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 35/61] fix: intersections of constants and roots of functions
 with a denominator

---
 blueprint/src/python/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 5ba53fe..d7feb51 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -981,7 +981,7 @@ class RationalFunction:
     # on an interval
     def intersections(self, other, interval):
         # Intersections of P/Q = R/S when PS - RQ = 0
-        f = self.num * other.den - self.den * other.num
+        f = sympy.sympify(self.num * other.den - self.den * other.num)
         if not f.is_constant():
             return [
                 SympyHelper.to_frac(r)
@@ -991,7 +991,8 @@ class RationalFunction:
         return []
 
     def roots(self, interval):
-        f = self.num / self.den
+        # Zeroes of the numerator of P(x)/Q(x) in lowest terms
+        f = sympy.fraction(sympy.cancel(self.num / self.den))[0]
         if f.is_constant():
             return []
         return [r for r in sympy.real_roots(f) if interval.contains(r)]
-- 
2.43.0


From c76fdaac56465c06481e8717c805cbaea97006c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 36/61] fix: minimum of equal affine functions without labels

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index d7feb51..9d44fab 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -407,7 +407,7 @@ class Affine2:
             # If two functions are identical, then we add the one with a smaller
             # label. This is to establish a replicable order of functions.
             if all(self.a[i] == f.a[i] for i in range(len(self.a))):
-                fn = self if self.label < f.label else f
+                fn = f if self.label is None or (f.label is not None and f.label <= self.label) else self
                 pieces.append(Affine2(fn.a, domain, fn.label))  # Shallow copying
                 continue
 
-- 
2.43.0


From 8ae16048c01f1fb9badd91f425711a55dded5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 37/61] fix: scaling the domain of an affine function keeps its
 label

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 9d44fab..28f974b 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -385,7 +385,7 @@ class Affine2:
     # Returns new Affine2 function with dimension i scaled by a factor
     def scale(self, i, factor, additional_constraints):
         return Affine2(
-            self.a.copy(), self.domain.scale(i, factor, additional_constraints)
+            self.a.copy(), self.domain.scale(i, factor, additional_constraints), self.label
         )
 
     # Computes the minimum between this function and a list of 2-d affine functions
-- 
2.43.0


From 047af56e19205dd7357a0af5f8c7f9b2cac6a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 38/61] fix: derived results keep their own set of dependencies

The constructors stored the caller's container itself, so results built from one
set shared it, and adding to it (or to one of them) changed the others.
---
 blueprint/src/python/additive_energy.py              | 6 +++---
 blueprint/src/python/bound_beta.py                   | 2 +-
 blueprint/src/python/bound_mu.py                     | 2 +-
 blueprint/src/python/exponent_pair.py                | 2 +-
 blueprint/src/python/large_values.py                 | 2 +-
 blueprint/src/python/zero_density_energy_estimate.py | 2 +-
 blueprint/src/python/zero_density_estimate.py        | 2 +-
 blueprint/src/python/zeta_large_values.py            | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/blueprint/src/python/additive_energy.py b/blueprint/src/python/additive_energy.py
index 5b1fa2b..bbb4b80 100644
--- a/blueprint/src/python/additive_energy.py
+++ b/blueprint/src/python/additive_energy.py
@@ -108,7 +108,7 @@ def derived_large_value_energy_region(data, proof, deps):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = deps
+    bound.dependencies = set(deps)
     return bound
 
 def derived_zeta_large_value_energy_region(data, proof, deps):
@@ -120,7 +120,7 @@ def derived_zeta_large_value_energy_region(data, proof, deps):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = deps
+    bound.dependencies = set(deps)
     return bound
 
 def derived_additive_energy_estimate(
@@ -159,7 +159,7 @@ def derived_additive_energy_estimate(
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = deps
+    bound.dependencies = set(deps)
     return bound
 
 #############################################################################
diff --git a/blueprint/src/python/bound_beta.py b/blueprint/src/python/bound_beta.py
index 917f411..55c19cd 100644
--- a/blueprint/src/python/bound_beta.py
+++ b/blueprint/src/python/bound_beta.py
@@ -60,7 +60,7 @@ def derived_bound_beta(bound, proof, dependencies):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = dependencies
+    bound.dependencies = set(dependencies)
     return bound
 
 
diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index ca9344e..69a2670 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -76,7 +76,7 @@ def derived_bound_mu(sigma, mu, proof, dependencies):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = dependencies
+    bound.dependencies = set(dependencies)
     return bound
 
 
diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 41a76b8..9576165 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -46,7 +46,7 @@ def derived_exp_pair(k, l, proof, dependencies):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = dependencies
+    bound.dependencies = set(dependencies)
     return bound
 
 # Trivial exponent pair
diff --git a/blueprint/src/python/large_values.py b/blueprint/src/python/large_values.py
index ae2863f..13a97a8 100644
--- a/blueprint/src/python/large_values.py
+++ b/blueprint/src/python/large_values.py
@@ -130,7 +130,7 @@ def derived_bound_LV(region, proof, deps):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = deps
+    bound.dependencies = set(deps)
     return bound
 
 def classical_LV_estimate(bounds):
diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index d903a1e..efa822d 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -127,7 +127,7 @@ def derived_zero_density_energy_estimate(
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = deps
+    bound.dependencies = set(deps)
     return bound
 
 def trivial_zero_density_energy_estimate(
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index de2c1c3..627d71a 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -108,7 +108,7 @@ def derived_zero_density_estimate(data, proof, deps):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = deps
+    bound.dependencies = set(deps)
     return bound
 
 def add_zero_density(hypotheses, estimate, interval, ref, params=""):
diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index cafc042..b7b55be 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -54,7 +54,7 @@ def derived_bound_zeta_LV(bound, proof, deps):
         proof,
         Reference.derived(year),
     )
-    bound.dependencies = deps
+    bound.dependencies = set(deps)
     return bound
 
 
-- 
2.43.0


From 016ad8965fcff7e3e3a00a993fd6a4382fdc85c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 39/61] fix: loading references skips text between entries and
 keeps @ inside fields

---
 blueprint/src/python/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index a4ab596..82cf65b 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -80,10 +80,10 @@ class Reference_Manager:
 
         # parse file
         s = " ".join(l.strip() for l in lines)
-        items = s.split("@")
+        items = self._split_level(s, "{", "}", "@", 0)
 
         for item in items:
-            if len(item) == 0:
+            if "{" not in item: # text outside of the entries
                 continue
             ref = self._parse(item)
             if len(ref.label) > 0:
-- 
2.43.0


From 4a0fbc47f3b9eb44821f2c5c6daceed236eeada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 40/61] fix: searching references that have no author or year

---
 blueprint/src/python/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index 82cf65b..20ebdbf 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -93,8 +93,8 @@ class Reference_Manager:
         refs = []
         for k in self.refs:
             ref = self.refs[k]
-            if (author == "Any" or author in ref.entries["author"]) and (
-                year == "Any" or ref.entries["year"] == year
+            if (author == "Any" or author in ref.entries.get("author", "")) and (
+                year == "Any" or ref.entries.get("year") == year
             ):
                 refs.append(ref)
         return refs
-- 
2.43.0


From 48dc923ef4b63c8ea789e8fb911edb612ede3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 41/61] fix: reading references with bare or quoted values

---
 blueprint/src/python/reference.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index 20ebdbf..dd5cd4e 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -171,7 +171,11 @@ class Reference_Manager:
             kvp = self._split_level(e, "{", "}", "=", 0)
             if len(kvp) >= 2:
                 key = kvp[0].strip().lower()
-                value = self._extract(kvp[1].strip(), "{", "}")
+                value = kvp[1].strip()
+                if value.startswith("{") or value.startswith('"{'):
+                    value = self._extract(value, "{", "}")
+                else: # a bare or quoted value
+                    value = value.strip('"')
                 if len(key) == 0 or len(value) == 0:
                     continue
                 if key == "year":
-- 
2.43.0


From dc79d347e9e63d225950926fb3fc010e09b3d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 42/61] fix: Heath-Brown energy derivations call the current
 interface

---
 blueprint/src/python/derived.py | 107 +++-----------------------------
 1 file changed, 9 insertions(+), 98 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 5993e14..787f30c 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -673,30 +673,7 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(0, 2, Interval(frac(1,2), frac(3,4)))
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional polytope
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
 
 
     # Part 2: \sigma \in [3/4, 25/28] ----------------------------------------------------------
@@ -717,39 +694,14 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(4, -1, Interval(frac(3,4), frac(25,28)))
-
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    hs.extend(ze.lver_to_energy_bound(hypotheses, tau0, debug=False))
+    for h in hs: print(h.data)
+    return hs
 
 def prove_improved_heath_brown_energy_estimate():
     
-    # tau_0 as a piecewise affine function 
-    tau0s = [
-        Affine(8, -4, Interval(frac(3,4), frac(4,5)))
-    ]
+    # tau_0 as an affine function 
+    tau0 = Affine(8, -4, Interval(frac(3,4), frac(4,5)))
 
     hypotheses = Hypothesis_Set()
 
@@ -757,35 +709,6 @@ def prove_improved_heath_brown_energy_estimate():
        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
 
     # Add classical and literature Large value estimates
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
-
-    # Convert all large value estimates -> large value energy region
-    hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
-
-    # Convert tau_0 into a Region of (sigma, tau)
-    # domain representing tau0 <= tau <= 2tau0
-    LVER_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False)
-    
-    # New set of hypothesis for the zeta LVER computation
-    hypotheses = Hypothesis_Set()
-
-    for k in range(2, 3):
-        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
-
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(hypothesis_type="Zeta large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
@@ -795,21 +718,9 @@ def prove_improved_heath_brown_energy_estimate():
     # Convert all zeta large value estimates -> zeta large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=True))
 
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True)
-    bounds = ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, Interval(frac(1,2), 1))
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
+    for h in hs: print(h.data)
+    return hs
 
 def prove_zero_density_energy_2():
     hypotheses = Hypothesis_Set()
-- 
2.43.0


From 91765dd666ff0577bbdc757034b93f30407013b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 43/61] fix: compute_gap2 takes limits at range ends and
 ignores spurious complex roots

---
 blueprint/src/python/prime_gap.py | 36 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/blueprint/src/python/prime_gap.py b/blueprint/src/python/prime_gap.py
index 24fe028..afefe97 100644
--- a/blueprint/src/python/prime_gap.py
+++ b/blueprint/src/python/prime_gap.py
@@ -7,6 +7,22 @@ import zero_density_estimate as zd
 import zero_density_energy_estimate as ze
 import sympy
 
+# Compute the points of an interval at which the supremum of f can be attained, with 
+# the value of f (or its one-sided limit) at each
+def critical_values(f, interval):
+    x = RF.x
+    num = sympy.fraction(sympy.together(sympy.diff(f, x)))[0]
+    if not num.has(x):
+        statpts = []
+    elif num.is_polynomial(x) and all(c.is_Rational for c in sympy.Poly(num, x).coeffs()):
+        statpts = sympy.Poly(num, x).real_roots()
+    else:
+        statpts = [p for p in sympy.solve(num, x) if p.is_real]
+    values = [(p, f.subs(x, p)) for p in statpts if interval.x0 < p < interval.x1]
+    values.append((interval.x0, sympy.limit(f, x, interval.x0, "+")))
+    values.append((interval.x1, sympy.limit(f, x, interval.x1, "-")))
+    return values
+
 # Compute the best estimate of \theta_{gap, 2} using Corollary 13.9
 def compute_gap2(hypotheses, debug=False):
     if not isinstance(hypotheses, Hypothesis_Set):
@@ -47,24 +63,20 @@ def compute_gap2(hypotheses, debug=False):
         beta = 4 * x - 2 + (B * (1 - x) - 1) / A
 
         # Find all critical points and evaluate alpha at each 
-        statpts = sympy.solve(sympy.diff(alpha, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
-        statpts.update([interval.x0, interval.x1])
-        sup_alpha = max(float(alpha.subs(x, p)) for p in statpts)
+        values = critical_values(alpha, interval)
+        sup_alpha = max(float(v) for (p, v) in values)
         if debug:
             print("alpha -------------------------------------------------")
-            for p in statpts:
-                print(p, float(p), alpha.subs(x, p), float(alpha.subs(x, p)))
+            for (p, v) in values:
+                print(p, float(p), v, float(v))
         
         # Do the same for beta
-        statpts = sympy.solve(sympy.diff(beta, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
-        statpts.update([interval.x0, interval.x1])
-        sup_beta = max(float(beta.subs(x, p)) for p in statpts)
+        values = critical_values(beta, interval)
+        sup_beta = max(float(v) for (p, v) in values)
         if debug:
             print("beta --------------------------------------------------")
-            for p in statpts:
-                print(p, float(p), alpha.subs(x, p), float(alpha.subs(x, p)))
+            for (p, v) in values:
+                print(p, float(p), v, float(v))
 
         print(interval, max(sup_alpha, sup_beta), alpha.simplify(), beta.simplify())
 
-- 
2.43.0


From fdfcc49514ac20ec449fa1a692f16c71e375ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 44/61] fix: the bound of ivic_ep_to_zd is a valid expression

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 627d71a..7de3998 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -561,7 +561,7 @@ def ivic_ep_to_zd(exp_pairs, m=2):
     sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
     sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
 
-    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}x + {2-m})", Interval(sigma0, 1))
+    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}*x + {2-m})", Interval(sigma0, 1))
     return derived_zero_density_estimate(
         zde, f"Follows from {dep.data}", {dep}
     )
-- 
2.43.0


From 9aaa3d4abc45ab3ff1dcea101ac023c5d3636cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 45/61] fix: ep_to_zd calls bourgain_ep_to_zd with its current
 signature

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 7de3998..269538a 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -734,7 +734,7 @@ def ep_to_zd(hypotheses):
     hypotheses.add_hypotheses(ep.compute_best_beta_bounds(hypotheses))
     ephs = ep.beta_bounds_to_exponent_pairs(hypotheses)
 
-    return bourgain_ep_to_zd(ephs) + [ivic_ep_to_zd(ephs, m=2)]
+    return bourgain_ep_to_zd() + [ivic_ep_to_zd(ephs, m=2)]
 
 # Given a list of tuples (RationalFunction, interval),
 # returns a simplified list of tuples representing the same piecewise defined
-- 
2.43.0


From 457ab5c5dabbe07d5168f633587dc697c00a9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 46/61] fix: constraints print the sign of a leading negative
 term and their last variable

---
 blueprint/src/python/polytope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 1754aef..aa3ffcc 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -32,7 +32,7 @@ class Constraint:
         # Get symbols
         ch_set = list("xyzwu")
         if len(self.coefficients) > 5:
-            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients) - 1)]
+            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients))]
 
         f = ""
         if self.coefficients[0] != 0:
@@ -44,6 +44,8 @@ class Constraint:
                 continue
             if len(f) != 0:
                 f += " + " if c > 0 else " - "
+            elif c < 0:
+                f += "-"
             if c == 1 or c == -1:
                 f += v
             else:
-- 
2.43.0


From c1cb22c5edf2fcbc8e60d633de21a056cef6c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 47/61] fix: the printed form of the complement of a polytope
 says so

---
 blueprint/src/python/region.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 4ebf076..fca66d8 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -59,6 +59,8 @@ class Region:
         if use_indentation:
             if isinstance(region.child, Polytope):
                 p = str(region.child) if variables is None else region.child.to_str(variables)
+                if region.region_type == Region_Type.COMPLEMENT:
+                    p = "Complement of {" + p + "}"
                 return ("\t" * indentation) + p + "\n"
             else:
                 s = ("\t" * indentation) + Region_Type.to_str(region.region_type) + "\n"
@@ -69,7 +71,8 @@ class Region:
         # Returns a short form expression
         else:
             if isinstance(region.child, Polytope):
-                return str(region.child) if variables is None else region.child.to_str(variables)
+                p = str(region.child) if variables is None else region.child.to_str(variables)
+                return "Complement of {" + p + "}" if region.region_type == Region_Type.COMPLEMENT else p
             else:
                 return Region_Type.to_str(region.region_type) + " of {" + \
                     ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in (region.child if isinstance(region.child, list) else [region.child])) + "}"
-- 
2.43.0


From 85e8e74b88c3c4af4ecea9c33e38bb63a6d32fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 48/61] fix: vanishing terms of a polynomial print no sign

---
 blueprint/src/python/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 94ae330..af5d2aa 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -43,7 +43,7 @@ class Polynomial:
         for c in self.coefficients:
             if front: 
                 if c < 0: s.append("-")
-            else:
+            elif c != 0:
                 s.append("-" if c < 0 else "+")
 
             mon = Polynomial._monomial_str(c, var, deg)
-- 
2.43.0


From 14882c7a73189b9ff09a0a9cc3742cf574b169cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 49/61] fix: the zero linear expression prints as 0

---
 blueprint/src/python/helpers/str_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/helpers/str_helper.py b/blueprint/src/python/helpers/str_helper.py
index 305e7df..f112d86 100644
--- a/blueprint/src/python/helpers/str_helper.py
+++ b/blueprint/src/python/helpers/str_helper.py
@@ -32,5 +32,5 @@ class Str_Helper:
                 f += v
             else:
                 f += str(abs(c)) + v
-        return f
+        return f if len(f) > 0 else "0"
     
\ No newline at end of file
-- 
2.43.0


From faebf95f2ab3f6fbb486e17a374cf37844323056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:40 +0000
Subject: [PATCH 50/61] fix: a constraint without terms prints as 0

---
 blueprint/src/python/polytope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index aa3ffcc..1dcb815 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -50,6 +50,8 @@ class Constraint:
                 f += v
             else:
                 f += str(abs(c)) + v
+        if len(f) == 0:
+            f = "0"
 
         if self.inequality_type == Constraint.GREATER_EQUALS:
             return f"{f} >= 0"
-- 
2.43.0


From bf3f9f2081e04401b31a85456f9e41657c6e3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:00 +0000
Subject: [PATCH 51/61] fix: zero density estimates derived from large values
 bound A, not A(1-x)

---
 blueprint/src/python/derived.py               | 2 +-
 blueprint/src/python/examples.py              | 6 +++---
 blueprint/src/python/zero_density_estimate.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 787f30c..57fa336 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -352,7 +352,7 @@ def prove_zero_density(
         for x in xs:
             zs = [z for z in zdes if z.data.interval.contains(x)]
             if len(zs) > 0:
-                ys.append(min(z.data.at(x) / (1 - x) for z in zs))
+                ys.append(min(z.data.at(x) for z in zs))
             else:
                 ys.append(None)
         plt.plot(xs, ys)
diff --git a/blueprint/src/python/examples.py b/blueprint/src/python/examples.py
index c8e904e..1e0061c 100644
--- a/blueprint/src/python/examples.py
+++ b/blueprint/src/python/examples.py
@@ -271,7 +271,7 @@ def plot(zdt, hypotheses, title=None):
         sigma = 1 / 2 + 1 / 2 * i / N
         A = next((p.data.at(sigma) for p in zdt if p.data.interval.contains(sigma)), 0)
         xs.append(sigma)
-        computed_zdt.append(A / (1 - sigma))
+        computed_zdt.append(A)
         literature_zdt.append(min(h.data.at(sigma) for h in hypotheses if h.data.interval.contains(sigma)))
 
     plt.figure(dpi=1200)
@@ -315,7 +315,7 @@ def zero_density_estimates_examples():
     )
     zdt = zd.lv_zlv_to_zd(hypotheses, Interval(frac(1, 2), 1), tau0=frac(5))
     print("Best-known vs computed zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         h.recursively_list_proofs()
     plot(
@@ -374,7 +374,7 @@ def zero_density_estimates_examples3():
 
     zdt = zd.lv_zlv_to_zd(hypotheses, Interval(frac(1, 2), 1), tau0=frac(3))
     print("Best-known vs computed zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         print(h.data)
     plot(
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 269538a..52d8e3d 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -387,7 +387,7 @@ def lv_zlv_to_zd(
                 f'τ in [{tau0},{2 * tau0}]) and zeta large value estimates (for σ in {sigma_interval}, τ in [{2},{tau0}])'
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -465,7 +465,7 @@ def lv_zlv_to_zd2(
                 f"value estimates with τ0 = {tau0.to_str('σ')})"
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -528,7 +528,7 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
 
     return [
         derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
             f"and {depcount[1]} zeta large value energy regions",
             deps
-- 
2.43.0


From 021fc5e593009238bd61798c6aa8219ca7620eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 52/61] fix: a constant rational function evaluates to a
 symbolic number, as any other

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 28f974b..292760f 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -904,7 +904,7 @@ class RationalFunction:
     def at(self, x):
         f = self.num / self.den
         if isinstance(f, numbers.Number):
-            return f
+            return sympy.sympify(f)
         return f.subs(RationalFunction.x, x)
 
     def add(self, other):
-- 
2.43.0


From 34ba89b488728d8cc76788206cef022c6c8b810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 53/61] fix: Huxley's 1993 beta bound changes at 49/114, not
 49/144

---
 blueprint/src/python/literature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index d1ffe19..a49cecb 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -62,14 +62,14 @@ add_beta_bound_huxley_kolesnik_1991()
 def add_beta_bound_huxley_1993():
     bbeta.add_beta_bound(
         literature,
-        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/144]")).max_with(
-            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/144]"))]
+        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/114]")).max_with(
+            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/114]"))]
         ),
         rm.get("huxley_exponential_1993"),
     )
     bbeta.add_beta_bound(
         literature,
-        [Affine(frac(1, 2), frac(89, 570), Interval("[49/144, 1/2]"))],
+        [Affine(frac(1, 2), frac(89, 570), Interval("[49/114, 1/2]"))],
         rm.get("huxley_exponential_1993"),
     )
 
-- 
2.43.0


From 9d36ed29748b131a5f4e03f75b886ceeb8249a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 54/61] fix: a row of Bourgain's large value estimate bounds
 rho by 8 - 12 sigma + 4 tau/3

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index a49cecb..a527346 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -783,7 +783,7 @@ def add_bourgain_large_values_estimate():
             [1, -1, 0, 0]
         ]),
         Polytope([
-            [8, -12, frac(4,3), 0],     # ρ <= 8 - 12σ + 4τ/3
+            [8, -12, frac(4,3), -1],    # ρ <= 8 - 12σ + 4τ/3
             [0, 0, 0, 1],               # ρ >= 0
             [-frac(1,2), 1, 0, 0],      # σ >= 1/2
             [15, -21, 1, 0],
-- 
2.43.0


From 076ef1b92da75c7ecb11abe3a11920817cc1b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 55/61] fix: the Guth-Maynard energy bound from S_3 <= 2 tau +
 rho/2 + rho*/2 had rho and rho* exchanged

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index a527346..b1c5892 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1014,7 +1014,7 @@ def add_lver_guth_maynard_2024a(K):
         # First region arising on S_3 <= 2tau + rho/2 + rho*/2
         reg1 = Region.from_union_of_halfplanes(
             common + [
-                [1, -2, frac(2,3), frac(1,6), -frac(5,6), 0]
+                [1, -2, frac(2,3), -frac(5,6), frac(1,6), 0]
             ],
             rect
         )
-- 
2.43.0


From 4c34288e71fc62634983990bda85d7e9a570a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 56/61] fix: Ivic's 1980 bound 24/(30 sigma - 11) holds up to
 17/18 only

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index b1c5892..d6a8049 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1213,7 +1213,7 @@ def add_zero_density_ivic_1980():
         literature, "4/(2 * x + 1)", Itvl(frac(17, 18), 1), Reference.make("Ivic", 1980)
     )
     zd.add_zero_density(
-        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), 1), Reference.make("Ivic", 1980),
+        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), frac(17, 18)), Reference.make("Ivic", 1980),
     )
 add_zero_density_ivic_1980()
 
-- 
2.43.0


From 76b214202d3311702a8c6883d28b6ec9eba983cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 57/61] fix: the author of walfisz_1924 is Walfisz

---
 blueprint/src/references.bib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/references.bib b/blueprint/src/references.bib
index 618a2bf..088d2a3 100644
--- a/blueprint/src/references.bib
+++ b/blueprint/src/references.bib
@@ -3511,7 +3511,7 @@ MRREVIEWER = {I.\ Piatetski-Shapiro},
 @article{walfisz_1924,
 	title = {Zur Absch\"atzung von $\zeta(1/2 + it)$},
 	journal = {Nachr. Ges. Wiss. G\"ottingen, math.-phys},
-	author = {Robert, Olivier},
+	author = {Walfisz, Arnold},
 	year = {1924},
 	pages = {155--158},
 }
-- 
2.43.0


From cfcadde1804ebca3f7e8549f40cd28836f4e3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:44 +0000
Subject: [PATCH 58/61] fix: RationalFunction2 accepts a list of more than one
 coefficient

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 292760f..8cd899c 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -669,7 +669,7 @@ class RationalFunction2:
         if len(coeffs) == 0:
             raise ValueError("Parameter coeffs must have at least 1 element")
 
-        if len(coeffs) == 1:
+        if isinstance(coeffs, list):
             self._num_coeffs = tuple(coeffs)
             self._den_coeffs = tuple([1])
         else:
-- 
2.43.0


From b15682569c73b320da540de5a1e28e5746c3c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:44 +0000
Subject: [PATCH 59/61] fix: RationalFunction2 reads the constant term from the
 end of the coefficients

---
 blueprint/src/python/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 8cd899c..9b559e0 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -683,7 +683,7 @@ class RationalFunction2:
         if self.is_zero(): 
             return f"0 on {self.domain}"
         if self.is_constant(): 
-            return f"{self._num_coeffs[0] / self._den_coeffs[0]} on {self.domain}"
+            return f"{self._num_coeffs[-1] / self._den_coeffs[-1]} on {self.domain}"
 
         num = RationalFunction2._poly_str(self._num_coeffs, "x")
         den = RationalFunction2._poly_str(self._den_coeffs, "x")
@@ -729,12 +729,12 @@ class RationalFunction2:
         return all(c == 0 for c in self._num_coeffs)
 
     def is_constant(self):
-        return all(c == 0 for c in self._num_coeffs[1:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-1]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     def is_affine(self):
-        return all(c == 0 for c in self._num_coeffs[2:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-2]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     
 # Represents the univariate function P(x)/Q(x) where P, Q are polynomials. Currently
-- 
2.43.0


From 7b0827d7b8a96613b43b2ad71ff52488ec353a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:44 +0000
Subject: [PATCH 60/61] fix: RationalFunction2 prints no empty terms and
 brackets its denominator

---
 blueprint/src/python/functions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 9b559e0..b6eb6b1 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -693,7 +693,7 @@ class RationalFunction2:
  
         # Add brackets if required 
         if sum(1 for c in self._num_coeffs if c != 0) > 1: num = "(" + num + ")"
-        if sum(1 for c in self._den_coeffs if c != 0) > 1: den = "(" + den + ")"
+        if any(ch in den for ch in " /") or (den[0].isdigit() and "x" in den): den = "(" + den + ")"
 
         return f"{num}/{den} on {self.domain}"
 
@@ -704,13 +704,14 @@ class RationalFunction2:
         s = []
         front = True
         for c in coeffs:
-            if front: 
-                if c < 0: s.append("-")
-            else:
-                s.append("-" if c < 0 else "+")
-            s.append(RationalFunction2._mon_str(c, var_name, deg))
+            if c != 0:
+                if front: 
+                    if c < 0: s.append("-")
+                else:
+                    s.append("-" if c < 0 else "+")
+                s.append(RationalFunction2._mon_str(c, var_name, deg))
+                front = False
             deg -= 1
-            front = False
 
         if len(s) == 0: return "0"
         return " ".join(s)
-- 
2.43.0


From 1be510ca5cafca033d2840c38c599a789188a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:49 +0000
Subject: [PATCH 61/61] fix: zeta large value estimates from bounds on beta
 beyond 1/2 keep to tau >= 2

---
 blueprint/src/python/zeta_large_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index b7b55be..fec5344 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -117,7 +117,7 @@ def beta_to_zlv(hypotheses):
         tau_upper = (
             Constants.TAU_UPPER_LIMIT
             if alpha0 == 0
-            else min(Constants.TAU_UPPER_LIMIT, 1 / alpha0)
+            else min(Constants.TAU_UPPER_LIMIT, max(frac(2, 1), 1 / alpha0))
         )
         tau_lower = (
             Constants.TAU_UPPER_LIMIT if alpha1 == 0 else max(frac(2, 1), 1 / alpha1)
-- 
2.43.0


From 72e2a880279af3cf2db32415a01e4800b0224cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 01/62] fix: Polytope.lift of a polytope given only by
 equalities raised ValueError

---
 blueprint/src/python/polytope.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 20fbda6..0a5c326 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -787,11 +787,15 @@ class Polytope:
             c[i + 1] = -1
             ineq_constraints.append(c)
         
-        # Construct matrix 
-        mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+        # Construct matrix. The matrix will not have dimensions initialised if there 
+        # are no inequality rows, so in that case start from the equality rows 
+        if len(ineq_constraints) > 0:
+            mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+            if len(eq_constraints) > 0:
+                mat.extend(eq_constraints, linear=True)
+        else:
+            mat = cdd.Matrix(eq_constraints, linear=True, number_type="fraction")
         mat.rep_type = cdd.RepType.INEQUALITY
-        if len(eq_constraints) > 0:
-            mat.extend(eq_constraints, linear=True)
         return Polytope._from_mat(mat)
 
 
-- 
2.43.0


From 03ceee95ac52fa87c8e6d1b07faf253f841df339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 02/62] fix: Polytope.from_V_rep kept repeated and non-extreme
 points as vertices

---
 blueprint/src/python/polytope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 0a5c326..dfe86fc 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -342,13 +342,16 @@ class Polytope:
 
         V = cdd.Matrix([[1] + v for v in verts], number_type="fraction")
         V.rep_type = cdd.RepType.GENERATOR
+        # Drop repeated points and points that are not vertices (these occur e.g. 
+        # when projecting the vertices of another polytope)
+        V.canonicalize()
         poly = cdd.Polyhedron(V)
         H = poly.get_inequalities()
 
         p = Polytope([])  # Construct an empty polytope temporarily
         p.mat = H
         p.polyhedron = poly
-        p.vertices = copy.copy(verts)  # Shallow copy is fine for now
+        p.vertices = [r[1:] for r in V]
         p.rays = []
         return p
 
-- 
2.43.0


From 1c1a7e025bd7945faf11e9e7faaa2a0dd68b9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 03/62] fix: Polytope.set_minus lost part of A when B satisfied
 a linear equality

---
 blueprint/src/python/polytope.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index dfe86fc..71c7994 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -545,13 +545,14 @@ class Polytope:
         
         # Iterate through the constraints of B. For each constraint, take its 
         # complement, then add the original constraint to the set of constraints
-        # for the new region. All linear constraints are ignored (see above for 
-        # rationale)
+        # for the new region. Each linear constraint c = 0 is represented as the two 
+        # constraints c >= 0, -c >= 0
         A = self.mat.copy()
-        B = other.mat
+        B = Polytope._matrix_as_list(other.mat, False)
+        for c in Polytope._matrix_as_list(other.mat, True):
+            B.extend([c, tuple(-x for x in c)])
         polys = []
-        for i in range(B.row_size):
-            if i in B.lin_set: continue
+        for i in range(len(B)):
             c = B[i]
             # Invert the constraint c then compute A \intersect c'
             c_comp = [-x for x in c]
@@ -568,7 +569,7 @@ class Polytope:
                 polys.append(part)
 
             # For the next part
-            if i < B.row_size - 1:
+            if i < len(B) - 1:
                 A.extend([c])
 
         return polys
-- 
2.43.0


From 4956467ab93c90bb86caffa64364e876b5b8cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 04/62] fix: Polytope.is_subset_of reported unbounded polytopes
 as subsets

---
 blueprint/src/python/polytope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 71c7994..b3da0c7 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -670,6 +670,10 @@ class Polytope:
             mat.obj_func = ab
             lp = cdd.LinProg(mat)
             lp.solve()
+            # If there is no optimal solution then either P1 is empty, or ab is 
+            # unbounded below on P1
+            if lp.status != cdd.LPStatusType.OPTIMAL:
+                return self.is_empty(include_boundary=True)
             if lp.obj_value < 0:
                 return False
         return True
-- 
2.43.0


From ac7ff17926119b48540d560079c64e3b0df96ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 05/62] fix: Region.is_subset_of raised AttributeError for
 unions

---
 blueprint/src/python/region.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a7a3ac1..02e366c 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -181,7 +181,9 @@ class Region:
             if region.region_type == Region_Type.POLYTOPE:
                 return self.child.is_subset_of(region.child)
             elif region.region_type == Region_Type.UNION or region.region_type == Region_Type.DISJOINT_UNION:
-                return self.child.is_covered_by(region.child)
+                if not all(r.region_type == Region_Type.POLYTOPE for r in region.child):
+                    raise NotImplementedError()
+                return self.child.is_covered_by([r.child for r in region.child])
             elif region.region_type == Region_Type.INTERSECT:
                 return all(self.is_subset_of(p) for p in region.child)
         
-- 
2.43.0


From 516d67dda195409426ecf2a613f9051ed56d4941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 06/62] fix: Region.project of intersections failed with one
 child and dropped empty ones

---
 blueprint/src/python/region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 02e366c..2c64bdc 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -236,9 +236,9 @@ class Region:
         
         if self.region_type == Region_Type.INTERSECT:
             ps = [c.project(dims) for c in self.child]
-            ps = [p for p in ps if p is not None]
-            if len(ps) == 0: return None
-            if len(ps) == 1: return ps[1]
+            # If any of the regions is empty, so is the intersection
+            if any(p is None for p in ps): return None
+            if len(ps) == 1: return ps[0]
             return Region(Region_Type.INTERSECT, ps)
         
         # In particular, complements are not yet supported. 
-- 
2.43.0


From 7dcbfff00900154470ea5f859c2e2d0ef4fc7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 07/62] fix: Region.lift of a complement returned the lift of
 the region itself

---
 blueprint/src/python/region.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 2c64bdc..5b3f33d 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -252,9 +252,22 @@ class Region:
                                     Region_Type.DISJOINT_UNION, Region_Type.INTERSECT, Region_Type.COMPLEMENT}:
             raise NotImplementedError("lifting operation is not implemented for the region_type {self.region_type}.")
         
-        if self.region_type in {Region_Type.POLYTOPE, Region_Type.COMPLEMENT}:
+        if self.region_type == Region_Type.POLYTOPE:
             return Region(Region_Type.POLYTOPE, self.child.lift(var))
         
+        if self.region_type == Region_Type.COMPLEMENT:
+            # The limits along the new dimensions apply to the complement too
+            lifted = Region.complement(self.child.lift(var))
+            limits = []
+            for i in range(len(var)):
+                if isinstance(var[i], int): 
+                    continue
+                (lower, upper) = var[i]
+                limits.append([-lower] + [1 if j == i else 0 for j in range(len(var))])
+                limits.append([upper] + [-1 if j == i else 0 for j in range(len(var))])
+            if len(limits) == 0: return lifted
+            return Region.intersect([lifted, Region.from_polytope(Polytope(limits))])
+        
         return Region(self.region_type, [c.lift(var) for c in self.child])
 
     # Returns a representation of this region as a disjoint union of convex polytopes.
-- 
2.43.0


From f4b41fc6ce101c0faf3043b47192d119cd31d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 08/62] fix: Region.to_str raised TypeError for complements

---
 blueprint/src/python/region.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 5b3f33d..753aa61 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -60,7 +60,7 @@ class Region:
                 return ("\t" * indentation) + p + "\n"
             else:
                 s = ("\t" * indentation) + Region_Type.to_str(region.region_type) + "\n"
-                for r in region.child:
+                for r in ([region.child] if isinstance(region.child, Region) else region.child):
                     s += Region.to_str(r, use_indentation, indentation + 1, variables)
                 return s
             
@@ -70,7 +70,10 @@ class Region:
                 return str(region.child) if variables is None else region.child.to_str(variables)
             else:
                 return Region_Type.to_str(region.region_type) + " of {" + \
-                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in region.child) + "}"
+                    ", ".join(
+                        Region.to_str(r, use_indentation=False, variables=variables) 
+                        for r in ([region.child] if isinstance(region.child, Region) else region.child)
+                    ) + "}"
     
 
     # Private methods --------------------------------------------------------
-- 
2.43.0


From 1b26cab5d2c11596712a2a749d385cf4325b7b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 09/62] fix: Affine.min_with/max_with returned the whole
 function where it is the only one defined

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7553b46..7497d2d 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -246,7 +246,7 @@ class Affine:
                 x = crits[i]
                 interval = Interval(x, x, True, True)
                 if domain is None or domain.contains(x):
-                    p = self if self.domain.contains(x) else None
+                    p = compare_f(self, None, interval) if self.domain.contains(x) else None
                     for f in f2:
                         if f.domain.contains(x):
                             p = compare_f(p, f, interval)
@@ -258,7 +258,7 @@ class Affine:
             # Consider the interval (crits[i], crits[i + 1])
             interval = Interval(crits[i], crits[i + 1], False, False)
             test_x = interval.midpoint()
-            p = self if self.domain.contains(test_x) else None
+            p = compare_f(self, None, interval) if self.domain.contains(test_x) else None
             for f in f2:
                 if f.domain.contains(test_x):
                     p = compare_f(p, f, interval)
-- 
2.43.0


From 104aefd1b0d90b0409e17105e7a71b422cbfe4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 10/62] fix: Affine2.min_with raised TypeError for equal
 functions without labels

---
 blueprint/src/python/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7497d2d..d6d1e34 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -407,7 +407,11 @@ class Affine2:
             # If two functions are identical, then we add the one with a smaller
             # label. This is to establish a replicable order of functions.
             if all(self.a[i] == f.a[i] for i in range(len(self.a))):
-                fn = self if self.label < f.label else f
+                # Functions without a label come last.
+                if self.label is None or f.label is None:
+                    fn = f if self.label is None else self
+                else:
+                    fn = self if self.label < f.label else f
                 pieces.append(Affine2(fn.a, domain, fn.label))  # Shallow copying
                 continue
 
-- 
2.43.0


From 599d7a4c57d76bc8d20fcba4bb8658fdf04f5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 11/62] fix: RationalFunction subtraction operator raised
 AttributeError

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index d6d1e34..89fac02 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -786,7 +786,7 @@ class RationalFunction:
         return self.add(other)
     
     def __sub__(self, other):
-        return self.sub(other)
+        return self.subtract(other)
 
     def __mul__(self, other):
         return self.mul(other)
-- 
2.43.0


From 2cf48e42b29f91a7158fe23c88cdc05c77980a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 12/62] fix: RationalFunction.add returned an exception object
 instead of raising it

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 89fac02..83ebc1c 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -915,7 +915,7 @@ class RationalFunction:
             r.num = self.num * other.den + self.den * other.num
             r.den = self.den * other.den
             return r
-        return NotImplementedError()
+        raise NotImplementedError()
     
     def subtract(self, other):
         r = RationalFunction([])
-- 
2.43.0


From ed31b78f7f732c5801b2b12117e78b0bb768a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 13/62] fix: RationalFunction division by a number multiplied
 by it

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 83ebc1c..b8f30a5 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -945,8 +945,8 @@ class RationalFunction:
     def div(self, other):
         r = RationalFunction([])
         if isinstance(other, numbers.Number):
-            r.num = self.num * other
-            r.den = self.den
+            r.num = self.num
+            r.den = self.den * other
             return r
         if isinstance(other, RationalFunction):
             r.num = self.num * other.den
-- 
2.43.0


From e74e5b09c35d201f9700e8ec92c292c2febc2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 14/62] fix: constant RationalFunctions were evaluated in
 floating point and had no roots or intersections

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index b8f30a5..574b484 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -755,13 +755,13 @@ class RationalFunction:
         if den_coeffs == None:
             den_coeffs = [1]
 
-        num = 0
+        num = sympy.Integer(0)
         xn = 1
         for coeff in num_coeffs[::-1]:
             num += coeff * xn
             xn *= RationalFunction.x
 
-        den = 0
+        den = sympy.Integer(0)
         xn = 1
         for coeff in den_coeffs[::-1]:
             den += coeff * xn
-- 
2.43.0


From e5bb19d142472b75bf96b8fcbc9686fd4a992cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 15/62] fix: roots, crossings and extrema of RationalFunctions
 failed or were spurious unless in lowest terms with polynomial parts

---
 blueprint/src/python/functions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 574b484..5e59925 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -954,6 +954,10 @@ class RationalFunction:
             return r
         raise NotImplementedError()
 
+    # The numerator, in lowest terms, of a rational expression
+    def _numerator(expr):
+        return sympy.fraction(sympy.cancel(expr))[0]
+
     # find all critical points
     # TODO: cache the critical points
     def _compute_critical_pts(self, interval):
@@ -961,9 +965,7 @@ class RationalFunction:
         crit = [interval.x0, interval.x1]
 
         # Stationary points of P(x) / Q(x) occur when P(x)Q'(x) - P'(x)Q(x) = 0
-        dP = sympy.diff(self.num, RationalFunction.x)
-        dQ = sympy.diff(self.den, RationalFunction.x)
-        df = self.num * dQ - dP * self.den
+        df = RationalFunction._numerator(sympy.diff(self.num / self.den, RationalFunction.x))
 
         if not df.is_constant():
             crit.extend(
@@ -978,7 +980,7 @@ class RationalFunction:
     # on an interval
     def intersections(self, other, interval):
         # Intersections of P/Q = R/S when PS - RQ = 0
-        f = self.num * other.den - self.den * other.num
+        f = RationalFunction._numerator(self.num / self.den - other.num / other.den)
         if not f.is_constant():
             return [
                 SympyHelper.to_frac(r)
@@ -988,7 +990,7 @@ class RationalFunction:
         return []
 
     def roots(self, interval):
-        f = self.num / self.den
+        f = RationalFunction._numerator(self.num / self.den)
         if f.is_constant():
             return []
         return [r for r in sympy.real_roots(f) if interval.contains(r)]
-- 
2.43.0


From 756d7ccc4bff6919482c0f3a9133bc6905810f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 16/62] fix: RationalFunction.min and max missed crossings that
 are roots of an irreducible cubic

---
 blueprint/src/python/functions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 5e59925..788018d 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -828,8 +828,14 @@ class RationalFunction:
 
             new_best_bound = []
             for (func2, in2, ref2) in best_bound:
-                solns = sympy.solve(func1.num / func1.den - func2.num / func2.den)
-                crits = set(SympyHelper.to_frac(soln) for soln in solns if soln.is_real)
+                diff = func1.num / func1.den - func2.num / func2.den
+                if diff.is_rational_function(RationalFunction.x):
+                    # the roots of a cubic may be returned by solve in a form whose
+                    # realness is undecided, so isolate the real roots instead
+                    crits = set(func1.intersections(func2, in2))
+                else:
+                    solns = sympy.solve(diff)
+                    crits = set(SympyHelper.to_frac(soln) for soln in solns if soln.is_real)
                 crits.update([in1.x0, in1.x1])
                 crits = set(c for c in crits if in2.contains(c))
                 crits.update([in2.x0, in2.x1])
-- 
2.43.0


From 169f84ac422ce0d3bcbfefd98868ca661301d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 17/62] fix: Str_Helper.format returned an empty string for the
 zero function

---
 blueprint/src/python/helpers/str_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/helpers/str_helper.py b/blueprint/src/python/helpers/str_helper.py
index 305e7df..10649fa 100644
--- a/blueprint/src/python/helpers/str_helper.py
+++ b/blueprint/src/python/helpers/str_helper.py
@@ -32,5 +32,5 @@ class Str_Helper:
                 f += v
             else:
                 f += str(abs(c)) + v
-        return f
+        return f if len(f) != 0 else "0"
     
\ No newline at end of file
-- 
2.43.0


From 42829f22028fdf521f50f8a5b72bd104e239e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 18/62] fix: Constraint.__repr__ dropped a leading minus sign
 and failed in dimension 5 and above

---
 blueprint/src/python/polytope.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index b3da0c7..6fc258a 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -31,8 +31,8 @@ class Constraint:
 
         # Get symbols
         ch_set = list("xyzwu")
-        if len(self.coefficients) > 5:
-            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients) - 1)]
+        if len(self.coefficients) > 6:
+            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients))]
 
         f = ""
         if self.coefficients[0] != 0:
@@ -44,11 +44,16 @@ class Constraint:
                 continue
             if len(f) != 0:
                 f += " + " if c > 0 else " - "
+            elif c < 0:
+                f += "-"
             if c == 1 or c == -1:
                 f += v
             else:
                 f += str(abs(c)) + v
 
+        if len(f) == 0:
+            f = "0"
+
         if self.inequality_type == Constraint.GREATER_EQUALS:
             return f"{f} >= 0"
         if self.inequality_type == Constraint.GREATER:
-- 
2.43.0


From 34c533c6ef8ddc60bde9bd9f528a9d4b3f81ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 19/62] fix: Polynomial.to_str left dangling signs for zero
 coefficients

---
 blueprint/src/python/polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 94ae330..47480ec 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -41,6 +41,9 @@ class Polynomial:
         s = []
         front = True
         for c in self.coefficients:
+            if c == 0:
+                deg += 1
+                continue
             if front: 
                 if c < 0: s.append("-")
             else:
-- 
2.43.0


From e7eaa08e5abbe1708045477f97303796a04fef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 20/62] fix: RationalFunction2 could not be built from a list
 of several numbers

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 788018d..095889c 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -673,12 +673,12 @@ class RationalFunction2:
         if len(coeffs) == 0:
             raise ValueError("Parameter coeffs must have at least 1 element")
 
-        if len(coeffs) == 1:
+        if not isinstance(coeffs[0], (list, tuple)):
             self._num_coeffs = tuple(coeffs)
             self._den_coeffs = tuple([1])
         else:
             self._num_coeffs = tuple(coeffs[0])
-            self._den_coeffs = tuple(coeffs[1])
+            self._den_coeffs = tuple(coeffs[1]) if len(coeffs) > 1 else (1,)
         self.domain = domain
     
     def __repr__(self):
-- 
2.43.0


From ea0d8c7dff256cce3247793849e2f3c52dd8c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 21/62] fix: RationalFunction2.is_constant and is_affine read
 the coefficients from the wrong end

---
 blueprint/src/python/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 095889c..6261f74 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -687,7 +687,7 @@ class RationalFunction2:
         if self.is_zero(): 
             return f"0 on {self.domain}"
         if self.is_constant(): 
-            return f"{self._num_coeffs[0] / self._den_coeffs[0]} on {self.domain}"
+            return f"{self._num_coeffs[-1] / self._den_coeffs[-1]} on {self.domain}"
 
         num = RationalFunction2._poly_str(self._num_coeffs, "x")
         den = RationalFunction2._poly_str(self._den_coeffs, "x")
@@ -733,12 +733,12 @@ class RationalFunction2:
         return all(c == 0 for c in self._num_coeffs)
 
     def is_constant(self):
-        return all(c == 0 for c in self._num_coeffs[1:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-1]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     def is_affine(self):
-        return all(c == 0 for c in self._num_coeffs[2:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-2]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     
 # Represents the univariate function P(x)/Q(x) where P, Q are polynomials. Currently
-- 
2.43.0


From a9e01b37e375aed601447336a2e2e134c520725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 22/62] fix: RationalFunction2 left dangling signs for zero
 coefficients

---
 blueprint/src/python/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 6261f74..72fe0ca 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -708,6 +708,9 @@ class RationalFunction2:
         s = []
         front = True
         for c in coeffs:
+            if c == 0:
+                deg -= 1
+                continue
             if front: 
                 if c < 0: s.append("-")
             else:
-- 
2.43.0


From 15fe4e9c42435eac0b90372d19b2072e59f198a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 23/62] fix: copies of a Hypothesis_Set shared cached data, so
 one could use hulls computed for the other

---
 blueprint/src/python/hypotheses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index b6bbd84..80a7c6e 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -140,7 +140,7 @@ class Hypothesis_Set:
     # Shallow copy, the hypothesis objects are not cloned
     def __copy__(self):
         copy = Hypothesis_Set(self.hypotheses)
-        copy.data = self.data
+        copy.data = dict(self.data)
         copy.data_valid = self.data_valid
         return copy
 
-- 
2.43.0


From d85939a5a27bdf952e7babc443e2a1112ffb595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 24/62] fix: the cached hulls of mu bounds and of exponent
 pairs shared one key of Hypothesis_Set.data

---
 blueprint/src/python/bound_mu.py   | 10 +++++-----
 blueprint/src/python/hypotheses.py |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 3084b19..5c7b5e2 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -171,7 +171,7 @@ def get_bounds(hypothesis_set):
 def compute_convex_hull(bounds, hypothesis_set):
     conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
     vertices = [bounds[v] for v in conv.vertices]
-    hypothesis_set.data["convex_hull"] = vertices
+    hypothesis_set.data["mu_convex_hull"] = vertices
     hypothesis_set.data_valid = True
 
 
@@ -187,7 +187,7 @@ def best_mu_bound(sigma, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         # Generate set of bounds on mu implied by hypothesis set
         bounds = get_bounds(hypothesis_set)
         # The convex hull package requires us to provide at least 3 points, while some
@@ -197,7 +197,7 @@ def best_mu_bound(sigma, hypothesis_set):
         compute_convex_hull(pts, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     for i in range(len(verts)):
         b1 = verts[i]
         b2 = verts[(i + 1) % len(verts)]
@@ -240,12 +240,12 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         bounds = get_bounds(hypothesis_set)
         compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     mu_bounds = []
     for i in range(len(verts)):
         b1 = verts[i].data
diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index 80a7c6e..abfbeda 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -170,7 +170,12 @@ class Hypothesis_Set:
     def add_hypothesis(self, hypothesis, invalidate_data=True):
         self.hypotheses.add(hypothesis)
         if invalidate_data:
-            self.data_valid = False
+            self.invalidate_data()
+
+    # Discards all cached data
+    def invalidate_data(self):
+        self.data = {}
+        self.data_valid = False
 
     # Adds a set or list of hypotheses, an individual hypothesis, or a Hypothesis_Set
     def add_hypotheses(self, new_hypotheses, invalidate_data=True):
@@ -183,7 +188,7 @@ class Hypothesis_Set:
         else:
             self.hypotheses.update(new_hypotheses)
             if invalidate_data:
-                self.data_valid = False
+                self.invalidate_data()
 
     # return all hypotheses of a given type, and (optionally) up to a given year.  Note: is now returning a Hypothesis_Set rather than a list
     def list_hypotheses(self, hypothesis_type="Any", year="Any"):
-- 
2.43.0


From c47cb701b78a879fb21c66ede51d4299535418ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 25/62] fix: best_mu_bound_piecewise failed on hypothesis sets
 implying only the two trivial points

---
 blueprint/src/python/bound_mu.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 5c7b5e2..d8d9790 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -169,8 +169,12 @@ def get_bounds(hypothesis_set):
 # Compute the 2-d convex hull containing all points (sigma, mu) implied
 # by mu bounds in 'bounds' list and saves it in the 'hypothesis_set' object.
 def compute_convex_hull(bounds, hypothesis_set):
-    conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
-    vertices = [bounds[v] for v in conv.vertices]
+    # The convex hull package requires us to provide at least 3 points, while some
+    # hypothesis sets may only contain 2 points, so we include a placeholder point as
+    # a third point to account for this edge case.
+    pts = [b for b in bounds] + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
+    conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in pts]))
+    vertices = [pts[v] for v in conv.vertices]
     hypothesis_set.data["mu_convex_hull"] = vertices
     hypothesis_set.data_valid = True
 
@@ -190,11 +194,7 @@ def best_mu_bound(sigma, hypothesis_set):
     if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         # Generate set of bounds on mu implied by hypothesis set
         bounds = get_bounds(hypothesis_set)
-        # The convex hull package requires us to provide at least 3 points, while some
-        # hypothesis sets may only contain 2 points, so we include a placeholder point as
-        # a third point to account for this edge case.
-        pts = [b for b in bounds] + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
-        compute_convex_hull(pts, hypothesis_set)
+        compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
     verts = hypothesis_set.data["mu_convex_hull"]
-- 
2.43.0


From 31ad5f5ab90a72a1e2e19d7b955271dcd4111309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 26/62] fix: best_mu_bound_piecewise returned tuples, not
 functions, and wrong pieces outside [0, 1]

---
 blueprint/src/python/bound_mu.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index d8d9790..ef594a4 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -229,14 +229,20 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # deal with edge pieces
     if sigma0 < 0:
-        return [("-x + 1/2", sigma0, 0)] + best_mu_bound_piecewise(
+        piece = Affine(-1, frac(1, 2), Interval(sigma0, min(sigma1, 0)))
+        if sigma1 <= 0:
+            return [piece]
+        return [piece] + best_mu_bound_piecewise(
             Interval(0, sigma1, include_lower=True, include_upper=sigma_interval.include_upper),
             hypothesis_set
         )
     if sigma1 > 1:
+        piece = Affine(0, 0, Interval(max(sigma0, 1), sigma1))
+        if sigma0 >= 1:
+            return [piece]
         return best_mu_bound_piecewise(
             Interval(sigma0, 1, include_lower=sigma_interval.include_lower, include_upper=True),
-            hypothesis_set) + [("0", 1, sigma1)]
+            hypothesis_set) + [piece]
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-- 
2.43.0


From 8f33a2ce53ce8c9438ad27310e23b332549b2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 27/62] fix: compute_best_beta_bounds did not restrict a single
 bound to the domain

---
 blueprint/src/python/bound_beta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/bound_beta.py b/blueprint/src/python/bound_beta.py
index 917f411..3aca22d 100644
--- a/blueprint/src/python/bound_beta.py
+++ b/blueprint/src/python/bound_beta.py
@@ -132,7 +132,7 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         domain = Interval(0, frac(1, 2), include_lower=True, include_upper=True)
 
     # handle edge cases
-    if len(bounds) < 2:
+    if len(bounds) == 0:
         return bounds
 
     # Create temporary deep copy of bounds to work with
@@ -143,7 +143,7 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         bds[i].label = i
 
     # Iterate through all bounds
-    best_bounds = [bds[0]]
+    best_bounds = bds[0].min_with([], domain)
     for i in range(1, len(bds)):
         best_bounds = bds[i].min_with(best_bounds, domain)
 
-- 
2.43.0


From 1813cdd520ec78b41710c01e0ab129e743c23af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 28/62] fix: beta_bounds_to_exponent_pairs derived pairs from
 beta bounds leaving a gap in [0, 1/2]

---
 blueprint/src/python/exponent_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index f7c57ec..0ec4087 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -185,6 +185,10 @@ def beta_bounds_to_exponent_pairs(
     if len(beta_bound) == 0 or (
         beta_bound[0].data.bound.domain.x0 > 0
         or beta_bound[-1].data.bound.domain.x1 < frac(1, 2)
+        or any(
+            beta_bound[i].data.bound.domain.x1 < beta_bound[i + 1].data.bound.domain.x0
+            for i in range(len(beta_bound) - 1)
+        )
     ):
         return []
 
-- 
2.43.0


From d3db4c76a609221798bbd97e88fc7023d63e3458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 29/62] fix: construct_proof rejected clockwise triangles,
 accepted degenerate ones and failed when none was left

---
 blueprint/src/python/exponent_pair.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 0ec4087..b7c60c3 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -263,6 +263,8 @@ def in_triangle(a, b, c, p):
      d = ((b[1] - c[1])*(a[0] - c[0]) + (c[0] - b[0])*(a[1] - c[1]))
      x = ((b[1] - c[1])*(p[0] - c[0]) + (c[0] - b[0])*(p[1] - c[1]))
      y = ((c[1] - a[1])*(p[0] - c[0]) + (a[0] - c[0])*(p[1] - c[1]))
+     if d == 0: return False # degenerate triangle
+     if d < 0: d, x, y = -d, -x, -y # a, b, c are in clockwise order
      return 0 <= x and x <= d and 0 <= y and y <= d and x + y <= d
 
 def construct_proof(
@@ -347,6 +349,9 @@ def construct_proof(
                 lowest_comp = comp
                 best_tri = tri
 
+    # If all points are collinear then there is no triangle
+    if best_tri is None: best_tri = verts
+
     proof = "Follows from convexity and the exponent pairs " + ", ".join(
             f"({v.data.k}, {v.data.l})" for v in best_tri)
     return derived_exp_pair(k, l, proof, set(best_tri))
-- 
2.43.0


From cc5f245981d51c7b0acb41d3caebb13cbee79849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 30/62] fix: find_best_proof by date failed on sets containing
 a conjecture (year is infinite)

---
 blueprint/src/python/exponent_pair.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index b7c60c3..67bccb3 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -401,19 +401,14 @@ def find_best_proof(
     # Generate a proof of the exponent pair (k, l) by minimising the date of the
     # last dependency
     if method == Proof_Optimization_Method.DATE:
-        from_year = min(
+        years = sorted({
             h.reference.year()
             for h in hypotheses
             if h.reference.year() != "Unknown date"
-        )
-        to_year = max(
-            h.reference.year()
-            for h in hypotheses
-            if h.reference.year() != "Unknown date"
-        )
+        })
 
         num_hypotheses = 0
-        for year in range(from_year, to_year + 1):
+        for year in years:
             hyps = Hypothesis_Set(
                 h
                 for h in hypotheses
-- 
2.43.0


From af1401dba6fc5986bfcef41f1592cecb27174c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 31/62] fix: find_best_proof without an objective ignored the
 pairs it had derived

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 67bccb3..2a730f1 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -461,6 +461,6 @@ def find_best_proof(
         hyps = copy.copy(hypotheses)
         hyps.add_hypotheses(beta_bounds_to_exponent_pairs(hyps))
         hyps.add_hypotheses(compute_exp_pairs(hyps, prune=True))
-        return construct_proof(k, l, hypotheses, deep_search=False, reduce_dependencies=False)
+        return construct_proof(k, l, hyps, deep_search=False, reduce_dependencies=False)
     else:
         raise NotImplementedError()
-- 
2.43.0


From 22a5225958acf516d4adf3dff5c2cb38bf1a7ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 32/62] fix: the exponent pair conjecture was recorded as (0,
 0) instead of (0, 1/2)

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 2a730f1..b714177 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -62,7 +62,7 @@ trivial_exp_pair = Hypothesis(
 exponent_pair_conjecture = Hypothesis(
     "Exponent pair conjecture",
     "Exponent pair",
-    Exp_pair(0, 0),
+    Exp_pair(frac(0), frac(1, 2)),
     "Conjecture",
     Reference.conjectured(),
 )
-- 
2.43.0


From cc8c5fe665c9045b829008f061b46a4d73adfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 33/62] fix: best_mu_bound_piecewise raised ValueError when an
 upper edge of the hull met the interval

---
 blueprint/src/python/bound_mu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index ef594a4..26cda12 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -258,8 +258,11 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
         b2 = verts[(i + 1) % len(verts)].data
         if b2.sigma < sigma0 or b1.sigma > sigma1: 
             continue
+        # only the lower part of the hull matters
+        if b1.sigma >= b2.sigma:
+            continue
         interval = Interval(max(sigma0, b1.sigma), min(sigma1, b2.sigma))
-        if b1.sigma < b2.sigma and not interval.is_empty():
+        if not interval.is_empty():
             mu_bounds.append(
                 Affine(
                     (b2.mu - b1.mu) / (b2.sigma - b1.sigma),
-- 
2.43.0


From b6810d15de6b893e27496aa8d032b3a2e6932e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 34/62] fix: compute_exp_pairs and compute_convex_hull failed
 on three or more collinear exponent pairs

---
 blueprint/src/python/exponent_pair.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index b714177..08ad38e 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -7,7 +7,7 @@ import copy
 from fractions import Fraction as frac
 import itertools
 import numpy as np
-from scipy.spatial import ConvexHull
+from scipy.spatial import ConvexHull, QhullError
 import typing
 
 # Note: for the purposes of this database, we use the definition of exponent pair that allows for epsilon losses in the bound.
@@ -69,6 +69,15 @@ exponent_pair_conjecture = Hypothesis(
 
 ###############################################################################
 
+# The members of a list of exponent pair hypotheses that are vertices of their 
+# convex hull (all of them, if the exponent pairs are collinear)
+def _hull_vertices(pairs):
+    try:
+        conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
+    except QhullError:
+        return list(pairs)
+    return [pairs[v] for v in conv.vertices]
+
 def compute_exp_pairs(
         hypothesis_set: Hypothesis_Set, 
         search_depth: int = 5, 
@@ -113,8 +122,7 @@ def compute_exp_pairs(
             if len(pairs) < 3:
                 continue  # Don't prune if set is too small
             pairs = [p for p in pairs.values()]
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            verts = [pairs[v] for v in conv.vertices]
+            verts = _hull_vertices(pairs)
             pairs = {(p.data.k, p.data.l): p for p in verts}
 
     return [p for p in pairs.values()]
@@ -145,8 +153,7 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
         if len(pairs) < 3:
             hypothesis_set.data["convex_hull"] = list(pairs)
         else:
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            vertices = [pairs[v] for v in conv.vertices]
+            vertices = _hull_vertices(pairs)
             hypothesis_set.data["convex_hull"] = vertices
             hypothesis_set.data_valid = True
 
-- 
2.43.0


From 0e236c08cda9ebe32f840d2f01f4b546173a9e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 35/62] fix: Reference_Manager.find_all raised KeyError for
 references without a year or author

---
 blueprint/src/python/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index a4ab596..abd3486 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -93,8 +93,8 @@ class Reference_Manager:
         refs = []
         for k in self.refs:
             ref = self.refs[k]
-            if (author == "Any" or author in ref.entries["author"]) and (
-                year == "Any" or ref.entries["year"] == year
+            if (author == "Any" or author in ref.author()) and (
+                year == "Any" or ref.year() == year
             ):
                 refs.append(ref)
         return refs
-- 
2.43.0


From 6ab067a81a7bf1bafac506e9d2d5dec9b0c10a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 36/62] fix: the type of a reference kept the space before its
 opening brace

---
 blueprint/src/python/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index abd3486..5f82501 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -158,7 +158,7 @@ class Reference_Manager:
     # Parses a string representing a reference item, returns as a Reference object
     def _parse(self, item):
 
-        typ = item.split("{")[0].lower()
+        typ = item.split("{")[0].strip().lower()
         ref = self._extract(item, "{", "}")
         entries = self._split_level(ref, "{", "}", ",", 0)
         label = entries[0].strip()
-- 
2.43.0


From b1976f88f61257cebe902359e3a6500224735964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 37/62] fix: quoted and bare BibTeX values such as year = 2016
 were dropped

---
 blueprint/src/python/reference.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index 5f82501..834b0b7 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -171,7 +171,11 @@ class Reference_Manager:
             kvp = self._split_level(e, "{", "}", "=", 0)
             if len(kvp) >= 2:
                 key = kvp[0].strip().lower()
-                value = self._extract(kvp[1].strip(), "{", "}")
+                value = kvp[1].strip()
+                if "{" in value:
+                    value = self._extract(value, "{", "}")
+                else:
+                    value = value.strip('"') # quoted or bare value, e.g. year = 2016
                 if len(key) == 0 or len(value) == 0:
                     continue
                 if key == "year":
-- 
2.43.0


From 3753b717676b8b9032df867220d8275c61ff1e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 38/62] fix: Reference_Manager.load failed on leading blank
 lines and on @ inside a field

---
 blueprint/src/python/reference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index 834b0b7..5b5a912 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -80,10 +80,11 @@ class Reference_Manager:
 
         # parse file
         s = " ".join(l.strip() for l in lines)
-        items = s.split("@")
+        # Split into items, ignoring any @ inside the braces of an item
+        items = self._split_level(s, "{", "}", "@", 0)
 
         for item in items:
-            if len(item) == 0:
+            if "{" not in item:
                 continue
             ref = self._parse(item)
             if len(ref.label) > 0:
-- 
2.43.0


From a719c113b3e0268eff3313ba95256083a78de381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 39/62] fix: the first Guth-Maynard relation had rho and rho*
 exchanged in its bound on S_3

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index d1ffe19..a732f82 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1014,7 +1014,7 @@ def add_lver_guth_maynard_2024a(K):
         # First region arising on S_3 <= 2tau + rho/2 + rho*/2
         reg1 = Region.from_union_of_halfplanes(
             common + [
-                [1, -2, frac(2,3), frac(1,6), -frac(5,6), 0]
+                [1, -2, frac(2,3), -frac(5,6), frac(1,6), 0]
             ],
             rect
         )
-- 
2.43.0


From 260d9d1263c3cca178d1549cf81508e3db7f9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 40/62] fix: lv_zlv_to_zd2 left tau and sigma unbounded in the
 zeta large value region

---
 blueprint/src/python/zero_density_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 4d50b7f..991ddae 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -440,8 +440,8 @@ def lv_zlv_to_zd2(
         Region.from_polytope(
             Polytope([
                 [-2, 0, 1, 0], # tau >= 2
-                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, 1, 0] # tau <= 4/3 * tau0
-            ])
+                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, -1, 0] # tau <= 4/3 * tau0
+            ] + sigma_rho_constraints)
         ),
         zeta = True
     )
-- 
2.43.0


From 2df455e2680569a740a949d6348bff941418a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 41/62] fix: credit every estimate a large value region needs

---
 blueprint/src/python/zero_density_estimate.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 991ddae..e7eb9b8 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -216,17 +216,27 @@ def compute_large_value_region(
         # Create a copy of the current region object, then set label
         r = copy.copy(r)
         r.set_label(i)
-        regions.append(r)
+        regions.append((i, r))
 
     # Compute the large value energy bounding region
     # LV_region = Region(Region_Type.INTERSECT, [domain] + [h.data.region for h in hyps])
-    LV_region = Region.intersect(regions)
+    LV_region = Region.intersect([r for (i, r) in regions])
     LV_region = LV_region.as_disjoint_union(verbose=debug, track_dependencies=True)
 
     # Calculate dependency set using labels
     deps = set()
     for r in LV_region.child:
         deps = deps | r.child.dependencies
+
+    # The labels only record which hypotheses contribute a piece to the region,
+    # not which ones rule out the pieces that were discarded along the way. Add
+    # the hypotheses that are still needed for the region to follow.
+    implied = Region.intersect([domain] + [r for (i, r) in regions if i in deps])
+    implied = implied.as_disjoint_union()
+    for (i, r) in regions:
+        if i not in deps and not implied.is_subset_of(r):
+            deps.add(i)
+            implied = Region.intersect([implied, r]).as_disjoint_union()
     deps = set(hyps[d] for d in deps if d >= 0)
 
     # Construct hypothesis object and return
-- 
2.43.0


From 7087ad8769b4c8435a7e2428dc75aa523282718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 42/62] fix: trivial zeta large value estimate is a region

---
 blueprint/src/python/zeta_large_values.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 6d4f6dc..45e8987 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -18,16 +18,18 @@ def get_trivial_zlv():
     # Trivial estimate
     domain = Polytope(
         [
-            [-frac(1, 2), 1, 0],  # \sigma > 1/2
-            [1, -1, 0],  # \sigma <= 1
-            [-2, 0, 1],  # \tau >= 2
-            [Constants.TAU_UPPER_LIMIT, 0, -1],  # \tau <= some large number
+            [-frac(1, 2), 1, 0, 0],  # \sigma >= 1/2
+            [1, -1, 0, 0],  # \sigma <= 1
+            [-2, 0, 1, 0],  # \tau >= 2
+            [Constants.TAU_UPPER_LIMIT, 0, -1, 0],  # \tau <= some large number
+            [0, 0, 0, 1],  # \rho >= 0
+            [0, 0, 1, -1],  # \rho <= \tau
         ]
     )
     trivial = Hypothesis(
         "Trivial zeta large value estimate",
         "Zeta large value estimate",
-        lv.Large_Value_Estimate(Piecewise([Affine2([0, 0, 1], domain)])),
+        lv.Large_Value_Estimate(Region.from_polytope(domain)),
         "Trivial",
         Reference.trivial(),
     )
-- 
2.43.0


From 310aaae54572a176252490249a0f441566e87625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 43/62] fix: projecting a union gives a union even for a single
 piece

---
 blueprint/src/python/region.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 753aa61..7f08376 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -234,7 +234,6 @@ class Region:
             ps = [c.project(dims) for c in self.child]
             ps = [p for p in ps if p is not None]
             if len(ps) == 0: return None
-            if len(ps) == 1: return ps[0]
             return Region(Region_Type.UNION, ps)
         
         if self.region_type == Region_Type.INTERSECT:
-- 
2.43.0


From 4baa13c3ea62207e093f125b77a4c3704da6b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 44/62] fix: handle an empty region in lver_to_lv

---
 blueprint/src/python/additive_energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/additive_energy.py b/blueprint/src/python/additive_energy.py
index d2dfd2a..5b1fa2b 100644
--- a/blueprint/src/python/additive_energy.py
+++ b/blueprint/src/python/additive_energy.py
@@ -398,6 +398,10 @@ def lver_to_lv(hypothesis: Hypothesis) -> Hypothesis:
 
     # Project onto the dimensions (sigma, tau, rho)
     proj = region.project({0, 1, 2})
+
+    # Handle empty projections 
+    if proj is None: return None
+
     proj.simplify()
 
     # Pack into Hypothesis object
-- 
2.43.0


From 9881f8d29d5536924417627387a5dd05869db2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 45/62] fix: handle an empty region in lver_to_zd

---
 blueprint/src/python/zero_density_estimate.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index e7eb9b8..12a23fd 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -506,18 +506,20 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
     if LVER is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup1))
+        if proj is not None: # the region may be empty
+            proj.simplify()
+            sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup1))
         deps.update(list(LVER.dependencies))
         depcount[0] = len(LVER.dependencies)
 
     if LVER_zeta is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER_zeta.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup2))
+        if proj is not None: # the region may be empty
+            proj.simplify()
+            sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup2))
         deps.update(list(LVER_zeta.dependencies))
         depcount[1] = len(LVER_zeta.dependencies)
 
-- 
2.43.0


From 43390bd0ee24a985e5c905a95ddcaad413eef683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 46/62] fix: count of zeta regions in the proof given by
 lver_to_zd

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 12a23fd..86bf78e 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -533,7 +533,7 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
         derived_zero_density_estimate(
             Zero_Density_Estimate.from_rational_func(s[0], s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
-            "and {depcount[1]} zeta large value energy regions",
+            f"and {depcount[1]} zeta large value energy regions",
             deps
         )
         for s in sup
-- 
2.43.0


From 69df3146522d79a0bb94159c0bac4644330181d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 47/62] fix: Ivic zero density estimate can be parsed

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 86bf78e..42890ef 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -564,7 +564,7 @@ def ivic_ep_to_zd(exp_pairs, m=2):
     sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
     sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
 
-    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}x + {2-m})", Interval(sigma0, 1))
+    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}*x + {2-m})", Interval(sigma0, 1))
     return derived_zero_density_estimate(
         zde, f"Follows from {dep.data}", {dep}
     )
-- 
2.43.0


From 7b8b9e6c860bf8c7fd464d1dff6320626012e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 48/62] fix: ep_to_zd calls bourgain_ep_to_zd without arguments

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 42890ef..3f60079 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -737,7 +737,7 @@ def ep_to_zd(hypotheses):
     hypotheses.add_hypotheses(ep.compute_best_beta_bounds(hypotheses))
     ephs = ep.beta_bounds_to_exponent_pairs(hypotheses)
 
-    return bourgain_ep_to_zd(ephs) + [ivic_ep_to_zd(ephs, m=2)]
+    return bourgain_ep_to_zd() + [ivic_ep_to_zd(ephs, m=2)]
 
 # Given a list of tuples (RationalFunction, interval),
 # returns a simplified list of tuples representing the same piecewise defined
-- 
2.43.0


From baf5d935ec1af3c5f703ecf0ccf7eea5c06d5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 49/62] fix: type of the placeholder energy estimate

---
 blueprint/src/python/zero_density_energy_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index e49d2a4..0e53746 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -345,8 +345,8 @@ def compute_best_energy_bound(hypotheses: Hypothesis_Set) -> list:
         if ref < 0:
             best_bound.append(
                 Hypothesis(
-                    "Placeholder zero density estimate",
-                    "Zero density estimate",
+                    "Placeholder zero density energy estimate",
+                    "Zero density energy estimate",
                     zde,
                     "Placeholder zero density estimate",
                     Reference.trivial(),
-- 
2.43.0


From 01c8868a15ce4afd73ef18e57d572e19b146ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 50/62] fix: trivial energy estimates from derived zero density
 estimates

---
 blueprint/src/python/zero_density_energy_estimate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index 0e53746..3a0ecc0 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -155,11 +155,11 @@ def add_trivial_zero_density_energy_estimates(hypotheses: Hypothesis_Set):
     # add zero density energy estimates arising from A(sigma)
     zdes = hypotheses.list_hypotheses(hypothesis_type="Zero density estimate")
     for zde in zdes:
-        hypotheses.add_hypothesis(
-            trivial_zero_density_energy_estimate(
-                Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
-            )
-        )
+        zde.data._ensure_bound_is_computed()
+        estimate = Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
+        # The expr of a derived estimate is not always of a form that can be parsed
+        estimate.bound = zde.data.bound.mul(3)
+        hypotheses.add_hypothesis(trivial_zero_density_energy_estimate(estimate))
     
     # add zero density energy estimates arising from A*(1/2) = 6 and non-increasingness
     # of (1 - \sigma) A*(\sigma), which implies A*(\sigma) \leq 3/(1-\sigma) for \sigma
-- 
2.43.0


From 14ca18e4273c28db7da5baa2d697c38b2804e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 51/62] fix: range of Huxley's 1993 bounds on beta meets at
 49/114

---
 blueprint/src/python/literature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index a732f82..d2f78ed 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -62,14 +62,14 @@ add_beta_bound_huxley_kolesnik_1991()
 def add_beta_bound_huxley_1993():
     bbeta.add_beta_bound(
         literature,
-        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/144]")).max_with(
-            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/144]"))]
+        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/114]")).max_with(
+            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/114]"))]
         ),
         rm.get("huxley_exponential_1993"),
     )
     bbeta.add_beta_bound(
         literature,
-        [Affine(frac(1, 2), frac(89, 570), Interval("[49/144, 1/2]"))],
+        [Affine(frac(1, 2), frac(89, 570), Interval("[49/114, 1/2]"))],
         rm.get("huxley_exponential_1993"),
     )
 
-- 
2.43.0


From acb416b8c9e2dedd94574196e9d4afe2df549bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 52/62] fix: Walfisz's bound on mu(1/2) is 163/988

---
 blueprint/src/chapter/zeta_growth.tex | 2 +-
 blueprint/src/python/literature.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/chapter/zeta_growth.tex b/blueprint/src/chapter/zeta_growth.tex
index 990fc13..034fa7b 100644
--- a/blueprint/src/chapter/zeta_growth.tex
+++ b/blueprint/src/chapter/zeta_growth.tex
@@ -144,7 +144,7 @@ Reference & Results & Exponent pair \\
 \hline
 Hardy--Littlewood (1923) \cite{hardy_littlewood_1923} & $\mu(1/2) \le 1/6$ & (1/6, 2/3)\\
 \hline
-Walfisz (1924) \cite{walfisz_1924} & $\mu(1/2) \le 193/988$ & \\
+Walfisz (1924) \cite{walfisz_1924} & $\mu(1/2) \le 163/988$ & \\
 \hline
 Titchmarsh (1932) \cite{titchmarsh_van_1931} & $\mu(1/2) \leq 27/164$ & \\
 \hline
diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index d2f78ed..73e7e12 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -605,7 +605,7 @@ def add_literature_bounds_mu():
             literature_bound_mu(
                 frac(1, 2), frac(1, 6), rm.get("hardy_littlewood_1923")
             ),
-            literature_bound_mu(frac(1, 2), frac(193, 988), rm.get("walfisz_1924")),
+            literature_bound_mu(frac(1, 2), frac(163, 988), rm.get("walfisz_1924")),
             literature_bound_mu(
                 frac(1, 2), frac(27, 164), rm.get("titchmarsh_van_1931")
             ),
-- 
2.43.0


From 3fccc3a3aa2f7b9bd310219682d43e133201bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 53/62] fix: last piece of Bourgain's large value theorem
 bounds rho

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index 73e7e12..a4f17a9 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -783,7 +783,7 @@ def add_bourgain_large_values_estimate():
             [1, -1, 0, 0]
         ]),
         Polytope([
-            [8, -12, frac(4,3), 0],     # ρ <= 8 - 12σ + 4τ/3
+            [8, -12, frac(4,3), -1],    # ρ <= 8 - 12σ + 4τ/3
             [0, 0, 0, 1],               # ρ >= 0
             [-frac(1,2), 1, 0, 0],      # σ >= 1/2
             [15, -21, 1, 0],
-- 
2.43.0


From 535c175eb1cf079ada020feafdabf7c928c95f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 54/62] fix: range of Ivic's 1980 estimate 24/(30x-11)

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index a4f17a9..b8932bc 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1213,7 +1213,7 @@ def add_zero_density_ivic_1980():
         literature, "4/(2 * x + 1)", Itvl(frac(17, 18), 1), Reference.make("Ivic", 1980)
     )
     zd.add_zero_density(
-        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), 1), Reference.make("Ivic", 1980),
+        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), frac(17, 18)), Reference.make("Ivic", 1980),
     )
 add_zero_density_ivic_1980()
 
-- 
2.43.0


From a70711fb76a5dbc3abb52c0e813381c3eed3aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 55/62] fix: Jutila's 1982 zero density estimate holds on [1/2,
 1]

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index b8932bc..930bc3f 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1221,7 +1221,7 @@ add_zero_density_ivic_1980()
 zd.add_zero_density(
     literature,
     "(3/2 - x) / (1 - x)",
-    Itvl(frac(155, 174), 1),
+    Itvl(frac(1, 2), 1),
     rm.get("jutila_zeroes_1983"),
 )
 
-- 
2.43.0


From 13bb7e143a079250dae02a00c636b8450f67687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 56/62] fix: Heath-Brown energy derivations use
 lver_to_energy_bound(hypotheses, tau0)

---
 blueprint/src/python/derived.py | 109 +++-----------------------------
 1 file changed, 10 insertions(+), 99 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 5993e14..64d7837 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -673,30 +673,7 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(0, 2, Interval(frac(1,2), frac(3,4)))
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional polytope
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
 
 
     # Part 2: \sigma \in [3/4, 25/28] ----------------------------------------------------------
@@ -717,99 +694,33 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(4, -1, Interval(frac(3,4), frac(25,28)))
+    hs.extend(ze.lver_to_energy_bound(hypotheses, tau0, debug=False))
 
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    for h in hs: print(h.data)
+    return hs
 
 def prove_improved_heath_brown_energy_estimate():
     
-    # tau_0 as a piecewise affine function 
-    tau0s = [
-        Affine(8, -4, Interval(frac(3,4), frac(4,5)))
-    ]
-
     hypotheses = Hypothesis_Set()
 
     for k in range(2, 5):
        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
 
     # Add classical and literature Large value estimates
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
-
-    # Convert all large value estimates -> large value energy region
-    hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
-
-    # Convert tau_0 into a Region of (sigma, tau)
-    # domain representing tau0 <= tau <= 2tau0
-    LVER_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False)
-    
-    # New set of hypothesis for the zeta LVER computation
-    hypotheses = Hypothesis_Set()
-
-    for k in range(2, 3):
-        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
-
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(hypothesis_type="Zeta large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
-    
+
     # Convert all large value estimates -> large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
     # Convert all zeta large value estimates -> zeta large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=True))
 
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True)
-    bounds = ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, Interval(frac(1,2), 1))
+    # tau_0 as an affine function 
+    tau0 = Affine(8, -4, Interval(frac(3,4), frac(4,5)))
+    hs = ze.lver_to_energy_bound(hypotheses, tau0, debug=False)
+    for h in hs: print(h.data)
+    return hs
 
 def prove_zero_density_energy_2():
     hypotheses = Hypothesis_Set()
-- 
2.43.0


From dc776916c69833ab2c2f8d0ba73e7649503b4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 57/62] fix: compute_gap2 ignored stationary points not
 recognised as real

---
 blueprint/src/python/prime_gap.py | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/blueprint/src/python/prime_gap.py b/blueprint/src/python/prime_gap.py
index 24fe028..f1c6a9e 100644
--- a/blueprint/src/python/prime_gap.py
+++ b/blueprint/src/python/prime_gap.py
@@ -7,6 +7,26 @@ import zero_density_estimate as zd
 import zero_density_energy_estimate as ze
 import sympy
 
+# Computes the supremum of a function of x over an interval, by evaluating it at the 
+# endpoints and at the stationary points inside the interval
+def sup_over_interval(fn, interval, debug=False):
+    x = RF.x
+    points = [interval.x0, interval.x1]
+    for p in sympy.solve(sympy.diff(fn, x)):
+        # Evaluate numerically, since not all real roots are recognised as such (e.g. roots 
+        # of cubic polynomials expressed in radicals)
+        v = complex(p.evalf(50))
+        if abs(v.imag) < 1e-15 and interval.contains(v.real):
+            points.append(v.real)
+    
+    values = []
+    for p in points:
+        value = fn.subs(x, p)
+        values.append(float(value))
+        if debug:
+            print(p, float(p), value, values[-1])
+    return max(values)
+
 # Compute the best estimate of \theta_{gap, 2} using Corollary 13.9
 def compute_gap2(hypotheses, debug=False):
     if not isinstance(hypotheses, Hypothesis_Set):
@@ -47,24 +67,14 @@ def compute_gap2(hypotheses, debug=False):
         beta = 4 * x - 2 + (B * (1 - x) - 1) / A
 
         # Find all critical points and evaluate alpha at each 
-        statpts = sympy.solve(sympy.diff(alpha, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
-        statpts.update([interval.x0, interval.x1])
-        sup_alpha = max(float(alpha.subs(x, p)) for p in statpts)
         if debug:
             print("alpha -------------------------------------------------")
-            for p in statpts:
-                print(p, float(p), alpha.subs(x, p), float(alpha.subs(x, p)))
+        sup_alpha = sup_over_interval(alpha, interval, debug)
         
         # Do the same for beta
-        statpts = sympy.solve(sympy.diff(beta, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
-        statpts.update([interval.x0, interval.x1])
-        sup_beta = max(float(beta.subs(x, p)) for p in statpts)
         if debug:
             print("beta --------------------------------------------------")
-            for p in statpts:
-                print(p, float(p), alpha.subs(x, p), float(alpha.subs(x, p)))
+        sup_beta = sup_over_interval(beta, interval, debug)
 
         print(interval, max(sup_alpha, sup_beta), alpha.simplify(), beta.simplify())
 
-- 
2.43.0


From eec290d529a8befe0dd1b4aa0907e7f5dbc9a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 58/62] fix: compute_gap2 at endpoints where A vanishes

---
 blueprint/src/python/prime_gap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/src/python/prime_gap.py b/blueprint/src/python/prime_gap.py
index f1c6a9e..7680d0a 100644
--- a/blueprint/src/python/prime_gap.py
+++ b/blueprint/src/python/prime_gap.py
@@ -22,6 +22,9 @@ def sup_over_interval(fn, interval, debug=False):
     values = []
     for p in points:
         value = fn.subs(x, p)
+        # Use one-sided limits at endpoints where the function is singular
+        if not value.is_finite:
+            value = sympy.limit(fn, x, p, "+" if p == interval.x0 else "-")
         values.append(float(value))
         if debug:
             print(p, float(p), value, values[-1])
-- 
2.43.0


From e680e3fd8f3db65287048885a286402a65354fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 59/62] fix: the improved Bourgain zero density theorem needs
 Jutila's large value estimate with k = 4

With k = 3 the derivation only gives a weaker bound than 2/(9x-6), 9/(8(2x-1))
for 17/22 < x < 0.779.
---
 blueprint/src/python/derived.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 64d7837..548c2e1 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -609,7 +609,7 @@ def prove_zero_density_bourgain_improved(verbose=True):
             hypothesis_type="Large value estimate", keywords="Bourgain"
         ),
         literature.find_hypothesis(
-            hypothesis_type="Large value estimate", keywords="Jutila, k = 3"
+            hypothesis_type="Large value estimate", keywords="Jutila, k = 4"
         ),
         literature.find_hypothesis(
             hypothesis_type="Zeta large value estimate", keywords="Heath-Brown"
-- 
2.43.0


From 538a8cee0a6b012003ee7f767d6ad2838008c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 60/62] fix: slope and intercept of tau0 in
 optimize_pintz_zero_density

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 3f60079..68ef45e 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -860,7 +860,7 @@ def optimize_pintz_zero_density(hypotheses):
             sigma_domain = Interval(
                 m + c / a_interval.x1, m + c / a_interval.x0,
                 a_interval.include_upper, a_interval.include_lower)
-            tau0 = Affine(m/c, -1/c, sigma_domain)
+            tau0 = Affine(1/c, -m/c, sigma_domain)
             print('tau_0 ', tau0)
             print(m, c, a_interval)
         elif c == 0:
-- 
2.43.0


From 88f80dbd46e3f77019ee13295d04015983471101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:46 +0000
Subject: [PATCH 61/62] fix: exponent pairs from bounds on beta depend on every
 piece of the best bound

---
 blueprint/src/python/exponent_pair.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 08ad38e..b51a9f9 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -209,19 +209,11 @@ def beta_bounds_to_exponent_pairs(
     # Compute the convex hull containing the \beta bounds
     conv = ConvexHull(np.array(points))
 
-    # Precompute the dependencies. Currently every beta bound that is on the boundary
-    # of the convex hull is included in the dependencies for every exponent pair
-    dep_indices = set()
-    for v in conv.vertices:
-        if v >= 2:  # skip the placeholder vertices:
-            p = points[v]
-            for i in range(len(beta_bound)):
-                f = beta_bound[i].data.bound
-                if (f.domain.x0 == p[0] and f.at(p[0], extend_domain=True) == p[1]) or (
-                    f.domain.x1 == p[0] and f.at(p[0], extend_domain=True) == p[1]
-                ):
-                    dep_indices.add(i)
-    dependencies = [beta_bound[i] for i in dep_indices]
+    # Precompute the dependencies. A pair (k, l) requires a bound on \beta at every
+    # \alpha in [0, 1/2], so every piece of the best bound is needed, including those
+    # which do not touch the boundary of the convex hull
+    dependencies = beta_bound
+
     # Keep track of the existing set of exponent pairs,
     known_ephs = hypothesis_set.list_hypotheses("Exponent pair")
     known_eps = {(p.data.k, p.data.l):p for p in known_ephs}
-- 
2.43.0


From cf12bc2cd7d8bcd4525e6e137ad49597c6d2d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 62/62] fix: unbounded polyhedra with the same vertices compare
 equal only when they are the same set

---
 blueprint/src/python/polytope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 6fc258a..9039594 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -174,6 +174,10 @@ class Polytope:
             self.compute_V_rep()
         if other.vertices is None:
             other.compute_V_rep()
+        # Rays are only determined up to scaling (and lines up to combinations), so 
+        # compare unbounded polyhedra by inclusion
+        if len(self.rays) > 0 or len(other.rays) > 0:
+            return self.is_subset_of(other) and other.is_subset_of(self)
         # Construct set of vertices from V representation (as tuples which are hashable)
         return set(tuple(v) for v in self.vertices) == set(
             tuple(v) for v in other.vertices
-- 
2.43.0


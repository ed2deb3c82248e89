From f7df5a1eaf6f0afb087fcd32e22801529d36336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 001/185] fix: mirror at the line with the given direction
 instead of the negated one

---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 60223a4..ef6356a 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -42,8 +42,8 @@ def _mmatrix(angle):
     phi = math.pi*angle/180.0
 
     return ( (math.cos(phi)*math.cos(phi)-math.sin(phi)*math.sin(phi),
-              -2*math.sin(phi)*math.cos(phi)                ),
-             (-2*math.sin(phi)*math.cos(phi),
+              2*math.sin(phi)*math.cos(phi)                ),
+             (2*math.sin(phi)*math.cos(phi),
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
-- 
2.43.0


From 657226ab2539a1f16c5177d24446c338c9edd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 002/185] fix: slant in the direction given by the angle
 instead of the negated one

---
 pyx/trafo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index ef6356a..d5fbca5 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -228,17 +228,17 @@ class scale(trafo):
 
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate_pt(-angle, x, y) *
+        t = ( rotate_pt(angle, x, y) *
               trafo(matrix=((1, a), (0, 1))) *
-              rotate_pt(angle, x, y) )
+              rotate_pt(-angle, x, y) )
         trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class slant(trafo):
     def __init__(self, a, angle=0, x=None, y=None):
-        t = ( rotate(-angle, x, y) *
+        t = ( rotate(angle, x, y) *
               trafo(matrix=((1, a), (0, 1))) *
-              rotate(angle, x, y) )
+              rotate(-angle, x, y) )
         trafo.__init__(self, t.matrix, t.vector)
 
 
-- 
2.43.0


From 1c9ba85f6f412a682a21862f44008c40c2720648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 003/185] fix: define the exception raised for an incomplete
 transformation centre

---
 pyx/trafo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index d5fbca5..2636180 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -23,6 +23,8 @@
 import math
 from . import attr, baseclasses, unit
 
+class TrafoException(Exception): pass
+
 # some helper routines
 
 def _rmatrix(angle):
-- 
2.43.0


From 6f76f9ba97a55d641fdb2a5ce4233c60b6ae1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 004/185] fix: slant around the given centre

---
 pyx/trafo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 2636180..525ddd1 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -231,7 +231,7 @@ class scale(trafo):
 class slant_pt(trafo_pt):
     def __init__(self, a, angle=0, x=None, y=None):
         t = ( rotate_pt(angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
+              trafo_pt(matrix=((1, a), (0, 1)), vector=(0 if y is None else -a*y, 0)) *
               rotate_pt(-angle, x, y) )
         trafo_pt.__init__(self, t.matrix, t.vector)
 
@@ -239,9 +239,9 @@ class slant_pt(trafo_pt):
 class slant(trafo):
     def __init__(self, a, angle=0, x=None, y=None):
         t = ( rotate(angle, x, y) *
-              trafo(matrix=((1, a), (0, 1))) *
+              trafo(matrix=((1, a), (0, 1)), vector=(0 if y is None else -a*y, 0)) *
               rotate(-angle, x, y) )
-        trafo.__init__(self, t.matrix, t.vector)
+        trafo_pt.__init__(self, t.matrix, t.vector)
 
 
 class translate_pt(trafo_pt):
-- 
2.43.0


From 9ef309a59271a6ed405239bfe87099052ae74baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 005/185] fix: arct with a straight corner does not fail by
 rounding errors

---
 pyx/path.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 063a557..b84e120 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -824,10 +824,11 @@ class arct_pt(pathitem):
         # We take the orientation from the sign of the vector product.
         # Negative (positive) angles alpha corresponds to a turn to the right (left)
         # as seen from currentpoint.
+        cosalpha = max(-1, min(1, dx1*dx2+dy1*dy2)) # ensure range despite rounding errors
         if dx1*dy2-dy1*dx2 > 0:
-            alpha = acos(dx1*dx2+dy1*dy2) 
+            alpha = acos(cosalpha)
         else:
-            alpha = -acos(dx1*dx2+dy1*dy2) 
+            alpha = -acos(cosalpha)
 
         try:
             # two tangent points
-- 
2.43.0


From 883486ee87344924ff9976bc952d15020f1d1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 006/185] fix: keep the current point while creating SVG data
 of arcs and closepath

---
 pyx/path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index b84e120..36f1e0c 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -312,6 +312,8 @@ class closepath(pathitem):
         file.write("closepath\n")
 
     def returnSVGdata(self, inverse_y, first, context):
+        context.x_pt = context.subfirstx_pt
+        context.y_pt = context.subfirsty_pt
         return "Z"
 
 
@@ -681,8 +683,7 @@ class arc_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
@@ -778,8 +779,7 @@ class arcn_pt(pathitem):
                 y_pt = -y_pt
             data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
 
-        context.x_pt = x_pt
-        context.y_pt = y_pt
+        context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
 
 
-- 
2.43.0


From 8a9b3393f3f99ca1c64a00d121dac09bef871ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 007/185] fix: orientation of arcs in SVG data without
 inversion of the y direction

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 36f1e0c..b1266f4 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -681,7 +681,7 @@ class arc_pt(pathitem):
             x_pt, y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, angle1 + (i+1)*(angle2-angle1)/subdivisions)
             if inverse_y:
                 y_pt = -y_pt
-            data.append("A%g %g 0 %s 0 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
+            data.append("A%g %g 0 %s %s %g %g" % (self.r_pt, self.r_pt, large, "0" if inverse_y else "1", x_pt, y_pt))
 
         context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
@@ -777,7 +777,7 @@ class arcn_pt(pathitem):
             x_pt, y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, angle1 + (i+1)*(angle2-angle1)/subdivisions)
             if inverse_y:
                 y_pt = -y_pt
-            data.append("A%g %g 0 %s 1 %g %g" % (self.r_pt, self.r_pt, large, x_pt, y_pt))
+            data.append("A%g %g 0 %s %s %g %g" % (self.r_pt, self.r_pt, large, "1" if inverse_y else "0", x_pt, y_pt))
 
         context.x_pt, context.y_pt = _arcpoint(self.x_pt, self.y_pt, self.r_pt, self.angle2)
         return "".join(data)
-- 
2.43.0


From 474b0396e2975eb1dd8a25ac848dfc47ee76f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 008/185] fix: allow for division of normpathparams in Python 3

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index f0da965..af003c9 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1494,7 +1494,7 @@ class normpathparam:
 
     __rmul__ = __mul__
 
-    def __div__(self, divisor):
+    def __truediv__(self, divisor):
         return self.normpath.arclentoparam_pt(self.normpath.paramtoarclen_pt(self) / divisor)
 
     def __neg__(self):
-- 
2.43.0


From 9e07f71a01324063529cb5c04322f65a00fcc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 009/185] fix: arc lengths of an unsorted list of parameters on
 a curve

---
 pyx/normpath.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index af003c9..bae5ca1 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -582,10 +582,15 @@ class normcurve_pt(normsubpathitem):
                             x_pt, y_pt)
 
     def _paramtoarclen_pt(self, params, epsilon):
-        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + list(params) + [1])]
+        # the arc lengths add up for params in ascending order only
+        indices = sorted(range(len(params)), key=lambda index: params[index])
+        arclens_pt = [segment.arclen_pt(epsilon) for segment in self.segments([0] + [params[index] for index in indices] + [1])]
         for i in range(1, len(arclens_pt)):
             arclens_pt[i] += arclens_pt[i-1]
-        return arclens_pt[:-1], arclens_pt[-1]
+        result = [None] * len(params)
+        for index, arclen_pt in zip(indices, arclens_pt):
+            result[index] = arclen_pt
+        return result, arclens_pt[-1]
 
     def pathitem(self):
         from . import path
-- 
2.43.0


From e0cedd7064d5a8d00d0acd97e533e88a875efeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 010/185] fix: subtract path parameters from lengths without
 leaving the path at its beginning

---
 pyx/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/unit.py b/pyx/unit.py
index f1fa6bf..461d297 100644
--- a/pyx/unit.py
+++ b/pyx/unit.py
@@ -165,7 +165,7 @@ class length:
             try:
                 other = length(other)
             except Exception:
-                return -other + self
+                return NotImplemented
         result = length()
         result.t = self.t - other.t
         result.u = self.u - other.u
-- 
2.43.0


From f1ddb6bf3eba4bc00bd3c3ff18db1ef8346eb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 011/185] fix: take arc lengths in pts in rotation_pt and
 trafo_pt of a path

---
 pyx/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index b1266f4..8a03d1e 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -1253,7 +1253,7 @@ class path:
 
     def rotation_pt(self, params):
         """return rotation at param(s) or arc length(s) in pts"""
-        return self.normpath().rotation(params)
+        return self.normpath().rotation_pt(params)
 
     def rotation(self, params):
         """return rotation at param(s) or arc length(s)"""
@@ -1285,7 +1285,7 @@ class path:
 
     def trafo_pt(self, params):
         """return transformation at param(s) or arc length(s) in pts"""
-        return self.normpath().trafo(params)
+        return self.normpath().trafo_pt(params)
 
     def trafo(self, params):
         """return transformation at param(s) or arc length(s)"""
-- 
2.43.0


From 9619a5539791390e1f42554fa0e55d1d76d8085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 012/185] fix: do not share subpaths with the joined normpath

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index bae5ca1..b05da43 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1799,7 +1799,7 @@ class normpath:
         if not other.normsubpaths:
             raise NormpathException("cannot join empty path")
         self.normsubpaths[-1].join(other.normsubpaths[0])
-        self.normsubpaths.extend(other.normsubpaths[1:])
+        self.normsubpaths.extend([normsubpath.copy() for normsubpath in other.normsubpaths[1:]])
 
     def joined(self, other):
         """return joined self and other
-- 
2.43.0


From 832389e2e79e79e8324f3cd0346777436676606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 013/185] fix: do not share subpaths between a normpath and its
 split parts

---
 pyx/normpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index b05da43..db69e98 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1900,14 +1900,14 @@ class normpath:
                     # gap to the forthcoming index
                     if param.normsubpathindex > collectindex:
                         for i in range(collectindex+1, param.normsubpathindex):
-                            result[-1].append(self.normsubpaths[i])
+                            result[-1].append(self.normsubpaths[i].copy())
                         collectparams = [0]
                     else:
                         for i in range(collectindex-1, param.normsubpathindex, -1):
                             result[-1].append(self.normsubpaths[i].reversed())
                         collectparams = [len(self.normsubpaths[param.normsubpathindex])]
                 else:
-                    result = [normpath(self.normsubpaths[:param.normsubpathindex])]
+                    result = [normpath([normsubpath.copy() for normsubpath in self.normsubpaths[:param.normsubpathindex]])]
                     collectparams = [0]
                 collectindex = param.normsubpathindex
             collectparams.append(param.normsubpathparam)
@@ -1916,7 +1916,7 @@ class normpath:
         segments = self.normsubpaths[collectindex].segments(collectparams)
         result[-1].append(segments[0])
         result.extend([normpath([segment]) for segment in segments[1:]])
-        result[-1].extend(self.normsubpaths[collectindex+1:])
+        result[-1].extend([normsubpath.copy() for normsubpath in self.normsubpaths[collectindex+1:]])
         return result
 
     def split_pt(self, params):
-- 
2.43.0


From 25ed09ab0f66f838351cba1ca4511241030e8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 014/185] fix: middle point of a short line in the intersection
 of lines

---
 pyx/normpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index db69e98..19bc6bb 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -225,7 +225,7 @@ class normline_pt(normsubpathitem):
                 # account.
                 if short_self:
                     sx_pt = 0.5*(self.x0_pt + self.x1_pt)
-                    sy_pt = 0.5*(self.y0_pt + self.x1_pt)
+                    sy_pt = 0.5*(self.y0_pt + self.y1_pt)
                 if short_other:
                     ox_pt = 0.5*(other.x0_pt + other.x1_pt)
                     oy_pt = 0.5*(other.y0_pt + other.y1_pt)
-- 
2.43.0


From c7555926dc37921fbd464fc3c773af283b4abf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 015/185] fix: the intersection of disjoint bounding boxes is
 empty

---
 pyx/bbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 70562fd..1f4281a 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -75,7 +75,7 @@ class bbox_pt:
 
     def __mul__(self, other):
         """return intersection of two bboxes"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             return bbox_pt(max(self.llx_pt, other.llx_pt), max(self.lly_pt, other.lly_pt),
                            min(self.urx_pt, other.urx_pt), min(self.ury_pt, other.ury_pt))
         else:
@@ -83,13 +83,13 @@ class bbox_pt:
 
     def __imul__(self, other):
         """intersect two bboxes in place"""
-        if self.llx_pt is not None and other.llx_pt is not None:
+        if self.intersects(other):
             self.llx_pt = max(self.llx_pt, other.llx_pt)
             self.lly_pt = max(self.lly_pt, other.lly_pt)
             self.urx_pt = min(self.urx_pt, other.urx_pt)
             self.ury_pt = min(self.ury_pt, other.ury_pt)
-        elif other.llx_pt is None:
-            self.llx_pt = None
+        else:
+            self.llx_pt = self.lly_pt = self.urx_pt = self.ury_pt = None
         return self
 
     def copy(self):
-- 
2.43.0


From c695de360f1a57c0b2f23c844ca07d9039a2af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 016/185] fix: stable conversion of arc lengths into parameters
 on almost straight pieces of a curve

---
 pyx/normpath.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 19bc6bb..2a043b5 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -744,16 +744,34 @@ class _leftnormline_pt(normline_pt):
 
     def subparamtoparam(self, param):
         if 0 <= param <= 1:
-            params = mathutils.realpolyroots(self.l1_pt-2*self.l2_pt+self.l3_pt,
-                                             -3*self.l1_pt+3*self.l2_pt,
-                                             3*self.l1_pt,
-                                             -param*(self.l1_pt+self.l2_pt+self.l3_pt))
-            # we might get several solutions and choose the one closest to 0.5
-            # (we want the solution to be in the range 0 <= param <= 1; in case
-            # we get several solutions in this range, they all will be close to
-            # each other since l1_pt+l2_pt+l3_pt-l0_pt < epsilon)
-            params.sort(key=lambda t: abs(t-0.5))
-            return 0.5*params[0]
+            # We need to find the root of the cubic polynomial
+            a = self.l1_pt-2*self.l2_pt+self.l3_pt
+            b = -3*self.l1_pt+3*self.l2_pt
+            c = 3*self.l1_pt
+            d = -param*(self.l1_pt+self.l2_pt+self.l3_pt)
+            # in the range [0, 1]. Since l1_pt, l2_pt, and l3_pt are not
+            # negative, the polynomial is monotonic in this range and has a
+            # single root there. Note that the polynomial is often close to a
+            # quadratic or linear one, for which the analytic solution suffers
+            # from numerical cancellation. Hence we use Newton's method,
+            # safeguarded by bisection.
+            lower, upper = 0, 1
+            t = param
+            for i in range(100):
+                value = ((a*t+b)*t+c)*t+d
+                if value > 0:
+                    upper = t
+                else:
+                    lower = t
+                derivative = (3*a*t+2*b)*t+c
+                if derivative > 0 and lower <= t-value/derivative <= upper:
+                    tnew = t-value/derivative
+                else:
+                    tnew = 0.5*(lower+upper)
+                if abs(tnew-t) < 1e-15:
+                    break
+                t = tnew
+            return 0.5*t
         else:
             # when we are outside the proper parameter range, we skip the non-linear
             # transformation, since it becomes slow and it might even start to be
-- 
2.43.0


From 258a2f3eb223f1f04d92c618380f81e8e3ae7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 017/185] fix: sign of the double root of cubic polynomials
 with positive R

---
 pyx/mathutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/mathutils.py b/pyx/mathutils.py
index e880ae7..41c9d0e 100644
--- a/pyx/mathutils.py
+++ b/pyx/mathutils.py
@@ -77,8 +77,8 @@ def _realroots_cubic(a2, a1, a0):
     elif D == 0:
         if Q == 0:    # one real root (R==0)
             return [-a2/3.0]
-        else:         # two real roots (R>0, Q<0)
-            S = -math.sqrt(-Q)
+        else:         # two real roots (Q<0)
+            S = sign(R) * math.sqrt(-Q)
             return [2*S - a2/3.0, -S - a2/3.0]
     else:             # three real roots (Q<0)
         SQ = math.sqrt(-Q)
-- 
2.43.0


From 3b169d4cffa601d2514695a06ac894f43d48846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 018/185] fix: real roots of quartic polynomials lost or wrong
 by rounding errors

---
 pyx/mathutils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyx/mathutils.py b/pyx/mathutils.py
index 41c9d0e..7b5568c 100644
--- a/pyx/mathutils.py
+++ b/pyx/mathutils.py
@@ -96,16 +96,18 @@ def _realroots_quartic(a3, a2, a1, a0):
     """gives the real roots of x**4 + a3 * x**3 + a2 * x**2 + a1 * x + a0 = 0"""
     # see http://mathworld.wolfram.com/QuarticEquation.html for details
     ys = _realroots_cubic(-a2, a1*a3 - 4*a0, 4*a0*a2 - a1*a1 - a0*a3*a3)
-    ys = [y for y in ys if a3*a3-4*a2+4*y >= 0 and  y*y-4*a0 >= 0]
+    # the arguments of the square roots below may become negative by rounding errors
+    ys = [y for y in ys if (a3*a3-4*a2+4*y >= -1e-10*(a3*a3+4*abs(a2)+4*abs(y)) and
+                            y*y-4*a0 >= -1e-10*(y*y+4*abs(a0)))]
     if not ys:
         return []
-    y1 = min(ys)
+    y1 = max(ys)
+    R = math.sqrt(max(0, a3*a3-4*a2+4*y1))
+    S = math.sqrt(max(0, y1*y1-4*a0))
     if a3*y1-2*a1 < 0:
-        return (_realroots_quadratic(0.5*(a3+math.sqrt(a3*a3-4*a2+4*y1)), 0.5*(y1-math.sqrt(y1*y1-4*a0))) +
-                _realroots_quadratic(0.5*(a3-math.sqrt(a3*a3-4*a2+4*y1)), 0.5*(y1+math.sqrt(y1*y1-4*a0))))
-    else:
-        return (_realroots_quadratic(0.5*(a3+math.sqrt(a3*a3-4*a2+4*y1)), 0.5*(y1+math.sqrt(y1*y1-4*a0))) +
-                _realroots_quadratic(0.5*(a3-math.sqrt(a3*a3-4*a2+4*y1)), 0.5*(y1-math.sqrt(y1*y1-4*a0))))
+        S = -S
+    return (_realroots_quadratic(0.5*(a3+R), 0.5*(y1+S)) +
+            _realroots_quadratic(0.5*(a3-R), 0.5*(y1-S)))
 
 
 def realpolyroots(*cs):
-- 
2.43.0


From 9947a6c5ff21539a0f83c301588929586f56461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 019/185] fix: write the path of a decoratedpath to PDF after
 the styles for its painting

---
 pyx/deco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 8586b44..c08988c 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -235,8 +235,6 @@ class decoratedpath(baseclasses.canvasitem):
             _writestyles(self.styles, context, registry)
 
         if self.fillstyles is not None:
-            fillpath.outputPDF(file, writer)
-
             if self.strokestyles is not None and strokepath is fillpath:
                 # do efficient stroking + filling
                 file.write("q\n") # gsave
@@ -247,6 +245,8 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
+                # no other operators are allowed between the path construction and the painting
+                fillpath.outputPDF(file, writer)
                 if context.fillrule:
                     file.write("B*\n")
                 else:
@@ -261,6 +261,7 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("q\n") # gsave
                     _writefillstyles(self.fillstyles, context(), registry)
 
+                fillpath.outputPDF(file, writer)
                 if context.fillrule:
                     file.write("f*\n")
                 else:
-- 
2.43.0


From ca04a23d67823f9861d3c89f0c764dd6fa02c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 020/185] fix: respect a fill rule given as a style of the
 filled decorator in PS and PDF

---
 pyx/deco.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index c08988c..51a4c45 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -147,10 +147,11 @@ class decoratedpath(baseclasses.canvasitem):
                 # do efficient stroking + filling if respective paths are identical
                 file.write("gsave\n")
 
+                acontext = context()
                 if self.fillstyles:
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -169,11 +170,12 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("grestore\n")
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("gsave\n")
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -247,7 +249,7 @@ class decoratedpath(baseclasses.canvasitem):
 
                 # no other operators are allowed between the path construction and the painting
                 fillpath.outputPDF(file, writer)
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("B*\n")
                 else:
                     file.write("B\n") # both stroke and fill
@@ -257,12 +259,13 @@ class decoratedpath(baseclasses.canvasitem):
                 file.write("Q\n") # grestore
             else:
                 # only fill fillpath - for the moment
+                acontext = context()
                 if self.fillstyles:
                     file.write("q\n") # gsave
-                    _writefillstyles(self.fillstyles, context(), registry)
+                    _writefillstyles(self.fillstyles, acontext, registry)
 
                 fillpath.outputPDF(file, writer)
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("f*\n")
                 else:
                     file.write("f\n") # fill
-- 
2.43.0


From c2d4fea595e85426a650a02be8cfe1ba3d8a0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 021/185] fix: paint the filling before the stroke in SVG when
 both are written separately

---
 pyx/deco.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 51a4c45..08046cc 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -322,15 +322,6 @@ class decoratedpath(baseclasses.canvasitem):
             xml.startSVGElement("g", gattrs)
 
         if strokepath is not fillpath:
-            if self.strokestyles is not None:
-                attrs = {"d": strokepath.returnSVGdata()}
-                _writestrokestyles(attrs, acontext)
-                attrs["stroke"] = acontext.strokecolor
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
                 _writefillstyles(attrs, acontext)
@@ -340,6 +331,15 @@ class decoratedpath(baseclasses.canvasitem):
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
                 bbox += fillpath.bbox()
+            if self.strokestyles is not None:
+                attrs = {"d": strokepath.returnSVGdata()}
+                _writestrokestyles(attrs, acontext)
+                attrs["stroke"] = acontext.strokecolor
+                if acontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.strokeopacity
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
+                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
         else:
             attrs = {"d": fillpath.returnSVGdata()}
             _writestrokestyles(attrs, acontext)
@@ -349,18 +349,18 @@ class decoratedpath(baseclasses.canvasitem):
             if self.fillstyles is not None:
                 attrs["fill"] = acontext.fillcolor
             if acontext.strokeopacity != acontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                attrs["stroke"] = acontext.strokecolor
-                attrs["fill"] = "none"
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
                 if acontext.fillopacity != 1:
                     attrs["opacity"] = "%f" % acontext.fillopacity
                 attrs["stroke"] = "none"
                 attrs["fill"] = acontext.fillcolor
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
+                if acontext.strokeopacity != 1:
+                    attrs["opacity"] = "%f" % acontext.strokeopacity
+                attrs["stroke"] = acontext.strokecolor
+                attrs["fill"] = "none"
+                xml.startSVGElement("path", attrs)
+                xml.endSVGElement("path")
             else:
                 if acontext.strokeopacity != 1 and self.strokestyles is not None:
                     attrs["opacity"] = "%f" % acontext.strokeopacity
-- 
2.43.0


From c710728c4fa7a407d3aacf74ffc84948b8135273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 022/185] fix: do not use the opacity of the filling for the
 stroke in SVG

---
 pyx/deco.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/deco.py b/pyx/deco.py
index 08046cc..fcfff92 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -355,6 +355,7 @@ class decoratedpath(baseclasses.canvasitem):
                 attrs["fill"] = acontext.fillcolor
                 xml.startSVGElement("path", attrs)
                 xml.endSVGElement("path")
+                attrs.pop("opacity", None) # the opacity of the filling
                 if acontext.strokeopacity != 1:
                     attrs["opacity"] = "%f" % acontext.strokeopacity
                 attrs["stroke"] = acontext.strokecolor
-- 
2.43.0


From e765d8636a014330d1e9c10efa3da8ac9024d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 023/185] fix: sign and daylight saving time of the UTC offset
 in the PDF creation date

---
 pyx/pdfwriter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 88194f9..e22e1e0 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -172,14 +172,14 @@ class PDFinfo(PDFobject):
             creation_date = time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH')))
             timezone = "Z00'00'"
         else:
-            if time.timezone < 0:
+            creation_date = time.localtime()
+            # offset from UTC in minutes (including daylight saving time), positive east of Greenwich
+            offset = creation_date.tm_gmtoff // 60
+            if offset:
                 # divmod on positive numbers, otherwise the minutes have a different sign from the hours
-                timezone = "-%02i'%02i'" % divmod(-time.timezone/60, 60)
-            elif time.timezone > 0:
-                timezone = "+%02i'%02i'" % divmod(time.timezone/60, 60)
+                timezone = "%s%02i'%02i'" % (("-" if offset < 0 else "+",) + divmod(abs(offset), 60))
             else:
                 timezone = "Z00'00'"
-            creation_date = time.localtime()
 
         def pdfstring(s):
             r = ""
-- 
2.43.0


From b0f03371049d84d738acd82e56568f0ec9e457c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 024/185] fix: encoding of document information with characters
 not available in PDFDocEncoding

---
 pyx/pdfwriter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index e22e1e0..7299c72 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -182,12 +182,16 @@ class PDFinfo(PDFobject):
                 timezone = "Z00'00'"
 
         def pdfstring(s):
+            if all(32 <= ord(c) <= 126 or 161 <= ord(c) <= 255 and ord(c) != 173 for c in s):
+                codes = [ord(c) for c in s] # identical in PDFDocEncoding
+            else:
+                codes = b"\xfe\xff" + s.encode("utf-16-be")
             r = ""
-            for c in s:
-                if 32 <= ord(c) <= 127 and c not in "()[]<>\\":
-                    r += c
+            for code in codes:
+                if 32 <= code <= 126 and chr(code) not in "()[]<>\\":
+                    r += chr(code)
                 else:
-                    r += "\\%03o" % ord(c)
+                    r += "\\%03o" % code
             return r
 
         file.write("<<\n")
-- 
2.43.0


From 615f789c92146f737fb58fc23454e31101312b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 025/185] fix: deprecated keyword arguments of the writers
 raised a NameError

---
 pyx/pdfwriter.py | 4 ++--
 pyx/pswriter.py  | 8 +++++---
 pyx/svgwriter.py | 6 ++++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 7299c72..2681f3d 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -365,11 +365,11 @@ class PDFwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("PDFwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PDFwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 69a4701..f6b8274 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -20,9 +20,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, math, os
+import io, copy, logging, time, math, os
 from . import bbox, config, style, version, unit, trafo, writer
 
+logger = logging.getLogger("pyx")
+
 
 class PSregistry:
 
@@ -110,11 +112,11 @@ class _PSwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("(E)PSwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 19d168c..3b1d665 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -19,9 +19,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, xml.sax.saxutils
+import io, copy, logging, time, xml.sax.saxutils
 from . import bbox, config, style, version, unit, trafo
 
+logger = logging.getLogger("pyx")
+
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
 
@@ -183,7 +185,7 @@ class SVGwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap_resolution is not None:
             logger.warning("SVGwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
-- 
2.43.0


From c94dc8d4cfc6e1eb0466b08d22955b797e1174cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 026/185] fix: resolution of meshes written as bitmaps to
 PostScript

---
 pyx/pswriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index f6b8274..14c7bf0 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -117,6 +117,7 @@ class _PSwriter:
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
             meshasbitmapresolution = mesh_as_bitmap_resolution
+        self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
-- 
2.43.0


From 0cef4d3c765c87dad32b00a0d9e862df86862a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 027/185] fix: respect the compresslevel of the PDF writer

---
 pyx/font/t1file.py | 2 +-
 pyx/mesh.py        | 2 +-
 pyx/pattern.py     | 2 +-
 pyx/pdfextra.py    | 4 ++--
 pyx/pdfwriter.py   | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index a5fcd17..d2bbfb1 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1144,7 +1144,7 @@ class T1File:
 
         data = self.data1.encode("ascii", errors="surrogateescape") + data2eexec + data3.encode("ascii", errors="surrogateescape")
         if writer.compress and haszlib:
-            data = zlib.compress(data)
+            data = zlib.compress(data, writer.compresslevel)
 
         file.write("<<\n"
                    "/Length %d\n"
diff --git a/pyx/mesh.py b/pyx/mesh.py
index e688f16..cea0e5e 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -157,7 +157,7 @@ class mesh(baseclasses.canvasitem):
             d = self.data(thisbbox)
             if writer.compress:
                 filter = "/Filter /FlateDecode\n"
-                d = zlib.compress(d)
+                d = zlib.compress(d, writer.compresslevel)
             else:
                 filter = ""
             name = "shading-%s" % id(self)
diff --git a/pyx/pattern.py b/pyx/pattern.py
index d2fc0bd..aa4b5fd 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -342,7 +342,7 @@ class PDFpattern(pdfwriter.PDFobject):
         self.patternregistry.writeresources(file)
         if writer.compress:
             import zlib
-            content = zlib.compress(self.patternproc)
+            content = zlib.compress(self.patternproc, writer.compresslevel)
         else:
             content = self.patternproc
 
diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index aa64e5e..b4be419 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -321,7 +321,7 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
         content = contentfile.file.getvalue()
         if awriter.compress:
-            content = zlib.compress(content)
+            content = zlib.compress(content, awriter.compresslevel)
 
         file.write("<<\n")
         file.write("/Type /XObject\n")
@@ -569,7 +569,7 @@ class PDFButtonState(pdfwriter.PDFobject): # <<<
 
         content = contentfile.file.getvalue()
         if awriter.compress:
-            content = zlib.compress(content)
+            content = zlib.compress(content, awriter.compresslevel)
 
         file.write("<<\n")
         file.write("/Type /XObject\n")
diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 2681f3d..843c812 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -322,7 +322,7 @@ class PDFcontent(PDFobject):
 
     def write(self, file, awriter, registry):
         if awriter.compress:
-            content = zlib.compress(self.content)
+            content = zlib.compress(self.content, awriter.compresslevel)
         else:
             content = self.content
         file.write("<<\n"
-- 
2.43.0


From 91b217c581be28a20622aa530780d3754dbd5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 028/185] fix: keep the precision when creating a rational from
 a rational, an integer, or a fraction

---
 pyx/graph/axis/tick.py | 45 ++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 29000a6..d5daeec 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -22,7 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 
-import sys, functools
+import sys, functools, numbers
 
 # test automatic long conversion
 try:
@@ -116,31 +116,34 @@ class rational:
             self.num = 1
             self.denom = 1
             return
-        try:
-            # does x behave like a number
-            x + 0
-        except Exception:
+        if hasattr(x, "num") and hasattr(x, "denom"):
+            # x is a rational instance (or alike)
+            self.num, self.denom = x.num, x.denom
+        elif isinstance(x, numbers.Rational):
+            # x is an integer or a fraction, i.e. no precision should be lost
+            self.num, self.denom = int(x.numerator), int(x.denominator)
+        else:
             try:
-                # does x behave like a string
-                x + ""
+                # does x behave like a number
+                x + 0
             except Exception:
                 try:
-                    # x might be a tuple
-                    self.num, self.denom = x
+                    # does x behave like a string
+                    x + ""
                 except Exception:
-                    # otherwise it should have a num and denom
-                    self.num, self.denom = x.num, x.denom
+                    # x should be a tuple
+                    self.num, self.denom = x
+                else:
+                    # x is a string
+                    fraction = x.split("/")
+                    if len(fraction) > 2:
+                        raise ValueError("multiple '/' found in '%s'" % x)
+                    self.initfromstring(fraction[0])
+                    if len(fraction) == 2:
+                        self /= rational(fraction[1])
             else:
-                # x is a string
-                fraction = x.split("/")
-                if len(fraction) > 2:
-                    raise ValueError("multiple '/' found in '%s'" % x)
-                self.initfromstring(fraction[0])
-                if len(fraction) == 2:
-                    self /= rational(fraction[1])
-        else:
-            # x is a number
-            self.initfromfloat(x, floatprecision)
+                # x is a number
+                self.initfromfloat(x, floatprecision)
         if not self.denom: raise ZeroDivisionError("zero denominator")
         if power == -1:
             self.num, self.denom = self.denom, self.num
-- 
2.43.0


From 28377dfa359f6ff2af87b9c63d322d6fed9a517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 029/185] fix: order of rationals with negative denominators

---
 pyx/graph/axis/tick.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index d5daeec..18ab595 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -162,6 +162,8 @@ class rational:
 
     def __lt__(self, other):
         try:
+            if self.denom * other.denom < 0:
+                return self.num * other.denom > other.num * self.denom
             return self.num * other.denom < other.num * self.denom
         except Exception:
             return float(self) < other
-- 
2.43.0


From 8b39dcf8080e5730ffb8d1d6eddc6516d804ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 030/185] fix: negative power of a zero rational

---
 pyx/graph/axis/tick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/tick.py b/pyx/graph/axis/tick.py
index 18ab595..8b4e5d7 100644
--- a/pyx/graph/axis/tick.py
+++ b/pyx/graph/axis/tick.py
@@ -144,7 +144,7 @@ class rational:
             else:
                 # x is a number
                 self.initfromfloat(x, floatprecision)
-        if not self.denom: raise ZeroDivisionError("zero denominator")
+        if not self.denom or (power < 0 and not self.num): raise ZeroDivisionError("zero denominator")
         if power == -1:
             self.num, self.denom = self.denom, self.num
         elif power < -1:
-- 
2.43.0


From 44c7fb9f0f617f469f90988ee00144003f554fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 031/185] fix: extend the proper end of the range of a negative
 logarithmic axis

---
 pyx/graph/axis/parter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 08f123e..2812e35 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -234,6 +234,7 @@ class logarithmic(linear):
         neglog = max < 0
         if neglog:
             min, max = -max, -min
+            extendmin, extendmax = extendmax, extendmin
         minpower = None
         maxpower = None
         for i in range(len(preexp.pres)):
-- 
2.43.0


From e081072c64346478ae8cb0476ef445e97b305390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 032/185] fix: position of thousandthpartsep in digits added
 for equalprecision

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index c9ba480..6f5bfff 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -126,7 +126,7 @@ class decimal(_texter):
                     if tick.temp_decprecision == 0 and maxdecprecision > 0:
                         tick.label += self.decimalsep
                     for i in range(tick.temp_decprecision, maxdecprecision):
-                        if not ((i - 1) % 3) and i > 1:
+                        if not (i % 3) and i > 0:
                             tick.label += self.thousandthpartsep
                         tick.label += "0"
         for tick in labeledticks:
-- 
2.43.0


From 90161d1480e7e99672688c709690956a818c22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 033/185] fix: begin of the period in decimal labels with
 thousandthpartsep

---
 pyx/graph/axis/texter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 6f5bfff..979911d 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -103,12 +103,13 @@ class decimal(_texter):
                 if remainder:
                     tick.label += self.decimalsep
                 oldremainders = []
+                digitpositions = []
                 tick.temp_decprecision = 0
                 while (remainder):
                     tick.temp_decprecision += 1
                     if remainder in oldremainders:
                         tick.temp_decprecision = None
-                        periodstart = len(tick.label) - (len(oldremainders) - oldremainders.index(remainder))
+                        periodstart = digitpositions[oldremainders.index(remainder)]
                         tick.label = tick.label[:periodstart] + self.period % tick.label[periodstart:]
                         break
                     oldremainders += [remainder]
@@ -116,6 +117,7 @@ class decimal(_texter):
                     quotient, remainder = divmod(remainder, n)
                     if not ((tick.temp_decprecision - 1) % 3) and tick.temp_decprecision > 1:
                         tick.label += self.thousandthpartsep
+                    digitpositions += [len(tick.label)]
                     tick.label += str(quotient)
                 else:
                     if maxdecprecision < tick.temp_decprecision:
-- 
2.43.0


From f4fed27ba5d90e967f683e2f44e46629e18e00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 034/185] fix: exponenttexter keyword arguments of the default
 texter had no effect

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 979911d..43dc50b 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -186,7 +186,7 @@ class default(_texter):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["mantissatexter", "basetexter", "exponenttexter"], allow_only_split=True)
         if "mantissatexter" in split_kwargs: mantissatexter = decimal(**split_kwargs["mantissatexter"])
         if "basetexter" in split_kwargs: basetexter = decimal(**split_kwargs["basetexter"])
-        if "exponenttexter" in split_kwargs: texter = decimal(**split_kwargs["exponenttexter"])
+        if "exponenttexter" in split_kwargs: exponenttexter = decimal(**split_kwargs["exponenttexter"])
 
         self.multiplicationtex = multiplicationtex
         self.multiplicationunicode = multiplicationunicode
-- 
2.43.0


From e11a88e1a68889bc94c51129b887f6dbc915d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 035/185] fix: AttributeError when calling a rational texter

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 43dc50b..ad1df34 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -347,7 +347,7 @@ class rational(_texter):
         return rational(**utils.merge_members_kwargs(self, [kwargs],
                                                     ["prefix", "infix", "suffix", "numprefix", "numinfix", "numsuffix",
                                                      "denomprefix", "denominfix", "denomsuffix", "plus", "minus", "minuspos",
-                                                     "over", "equaldenom", "skip1", "skipnum0", "skinum1", "skipdenom1", "labelattrs"]))
+                                                     "over", "equaldenom", "skip1", "skipnum0", "skipnum1", "skipdenom1", "labelattrs"]))
 
     def gcd(self, *n):
         """returns the greates common divisor of all elements in n
-- 
2.43.0


From d2380ca904aaac157a5033673120c6018e501a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 036/185] fix: equaldenom of the rational texter failed for
 ticks without labels

---
 pyx/graph/axis/texter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index ad1df34..ecfd162 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -398,7 +398,7 @@ class rational(_texter):
                 gcd = self.gcd(tick.temp_rationalnum, tick.temp_rationaldenom)
                 (tick.temp_rationalnum, dummy1), (tick.temp_rationaldenom, dummy2) = divmod(tick.temp_rationalnum, gcd), divmod(tick.temp_rationaldenom, gcd)
         if self.equaldenom:
-            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in ticks if tick.label is None])
+            equaldenom = self.lcm(*[tick.temp_rationaldenom for tick in labeledticks])
             if equaldenom is not None:
                 for tick in labeledticks:
                     factor, dummy = divmod(equaldenom, tick.temp_rationaldenom)
-- 
2.43.0


From cb3668493c7e1de3eed90e9ce2943b78921eccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 037/185] fix: manual ticks were modified by each axis layout
 (label text and divisor)

---
 pyx/graph/axis/axis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 496275a..2fbc98a 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import functools, logging, math
+import copy, functools, logging, math
 from pyx import attr, unit, text, utils
 from pyx.graph.axis import painter, parter, positioner, rater, texter, tick
 
@@ -150,7 +150,7 @@ class _regularaxis(_axis):
             return canvas
 
         if parter is None:
-            data.ticks = self.manualticks
+            data.ticks = [copy.copy(t) for t in self.manualticks]
             return layout(data)
 
         # a variant is a data copy with local modifications to test several partitions
@@ -196,7 +196,7 @@ class _regularaxis(_axis):
                 ticks = partfunction()
                 if ticks is None:
                     break
-                ticks = tick.mergeticklists(self.manualticks, ticks, mergeequal=0)
+                ticks = tick.mergeticklists([copy.copy(t) for t in self.manualticks], ticks, mergeequal=0)
                 if ticks:
                     rate = rater.rateticks(self, ticks)
                     if rate is not None:
-- 
2.43.0


From 56445374b9ad758f92b98a1681515af1206899ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 038/185] fix: calling a logarithmic axis returned a linear
 axis

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 2fbc98a..4f515ad 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -303,7 +303,7 @@ class logarithmic(_regularaxis):
         self.kwargs = kwargs
 
     def __call__(self, **kwargs):
-        return linear(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
+        return logarithmic(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater", "linearparter"]))
 
     def convert(self, data, value):
         """axis coordinates -> graph coordinates"""
-- 
2.43.0


From 1da0d574dc062054d1ee5164adafca71e8747984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 039/185] fix: calling a partitioner to modify its parameters
 failed

---
 pyx/graph/axis/parter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/graph/axis/parter.py b/pyx/graph/axis/parter.py
index 2812e35..79187b5 100644
--- a/pyx/graph/axis/parter.py
+++ b/pyx/graph/axis/parter.py
@@ -22,6 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import math
+from pyx import utils
 from pyx.graph.axis import tick
 
 
@@ -66,6 +67,8 @@ class linear(_parter):
     """partitioner to create a single linear partition"""
 
     def __init__(self, tickdists=None, labeldists=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickdists = tickdists
+        self.labeldists = labeldists
         if tickdists is None and labeldists is not None:
             self.ticklist = [tick.rational(labeldists[0])]
         else:
@@ -211,6 +214,8 @@ class logarithmic(linear):
     #  ^- we always include 1 in order to get extendto(tick|label)level to work as expected
 
     def __init__(self, tickpreexps=None, labelpreexps=None, extendtick=0, extendlabel=None, epsilon=1e-10):
+        self.tickpreexps = tickpreexps
+        self.labelpreexps = labelpreexps
         if tickpreexps is None and labelpreexps is not None:
             self.ticklist = [labelpreexps[0]]
         else:
-- 
2.43.0


From 7779b5314a2b28196e74bd907fd384447805a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 040/185] fix: painter keyword arguments of bar and split axes
 raised an AttributeError

---
 pyx/graph/axis/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 4f515ad..0bcda9b 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -370,8 +370,8 @@ class bar(_axis):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["defaultsubaxis", "painter", "linkpainter"], allow_only_split=True)
 
         if "defaultsubaxis" in split_kwargs: defaultsubaxis = linear(**split_kwargs["defaultsubaxis"])
-        if "painter" in split_kwargs: painter = painter.bar(**split_kwargs["painter"])
-        if "linkpainter" in split_kwargs: linkpainter = painter.linkedbar(**split_kwargs["linkpainter"])
+        if "painter" in split_kwargs: painter = painter(**split_kwargs["painter"])
+        if "linkpainter" in split_kwargs: linkpainter = linkpainter(**split_kwargs["linkpainter"])
 
         self.subaxes = subaxes
         self.defaultsubaxis = defaultsubaxis
-- 
2.43.0


From 4bb83c7a59002ee378639c1cec2aea48e13ed287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 041/185] fix: parter keyword arguments of autosized linear
 axes raised an AttributeError

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 0bcda9b..275ed14 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -542,7 +542,7 @@ class autosizedlinear(linear):
 
     def __init__(self, parter=parter.autolinear(extendtick=None), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["parter"])
-        if "parter" in split_kwargs: parter = parter.autolinear(**split_kwargs["parter"])
+        if "parter" in split_kwargs: parter = parter(**split_kwargs["parter"])
 
         linear.__init__(self, parter=parter, **rest_kwargs)
 
-- 
2.43.0


From 4161b3de11002230df3543d06b08ec3cafc822c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 042/185] fix: calling a bar axis lost its type and parameters

---
 pyx/graph/axis/axis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 275ed14..50bf955 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -389,10 +389,11 @@ class bar(_axis):
         self.painter = painter
         self.linkpainter = linkpainter
         self.epsilon = epsilon
-        self.kwargs = kwargs
+        self.kwargs = dict(kwargs, firstdist=firstdist, lastdist=lastdist)
 
     def __call__(self, **kwargs):
-        return bar(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["defaultsubaxis", "painter", "linkpainter"]))
+        return self.__class__(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["subaxes", "defaultsubaxis", "dist", "title",
+                                                                                         "reverse", "epsilon", "painter", "linkpainter"]))
 
     def createdata(self, errorname):
         data = axisdata(size=self.firstdist+self.lastdist-self.dist, subaxes={}, names=[])
-- 
2.43.0


From 27a7a167c0908df19d8d2e1081d9e1f60b661b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 043/185] fix: UnicodeEngine refused all text attributes,
 including those it supports

---
 pyx/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index fb36bb4..d9c27b5 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1747,12 +1747,15 @@ class UnicodeEngine:
         fillstyles = attr.getattrs(textattrs, [style.fillstyle])
         textattrs = attr.getattrs(textattrs, [textattr])
         mathmode = bool(attr.getattrs(textattrs, [_mathmode]))
-        if textattrs:
-            raise ValueError("UnicodeEngine does not support textattrs")
+        for ta in textattrs:
+            if not hasattr(ta, "apply_trafo"):
+                raise ValueError("UnicodeEngine does not support textattr %r" % ta)
 
         if isinstance(text, MultiEngineText):
             text = text.unicode
         output = unicodetextbox_pt(x_pt, y_pt, text, self.font, self.size, mathmode=mathmode, fillstyles=fillstyles)
+        for ta in textattrs:
+            ta.apply_trafo(output)
         for t in trafos:
             output.reltransform(t) # TODO: should trafos really use reltransform??? (see TeXEngine)
 
-- 
2.43.0


From e3b13140732cb2b8e39b063fa2045e5c55fa89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 044/185] fix: time ticks can not be copied (needed to protect
 manual ticks from changes)

---
 pyx/graph/axis/timeaxis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index eb27716..c8d7df9 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -66,6 +66,13 @@ class timetick(datetime.datetime):
         self.label = label
         self.labelattrs = labelattrs[:]
 
+    def __copy__(self):
+        # the copy of a datetime instance would be created by its packed date and time
+        result = self.__class__(self.year, self.month, self.day, hour=self.hour, minute=self.minute, second=self.second,
+                                microsecond=self.microsecond, tzinfo=self.tzinfo, fold=self.fold)
+        result.__dict__.update(self.__dict__)
+        return result
+
     def merge(self, other):
         if self.ticklevel is None or (other.ticklevel is not None and other.ticklevel < self.ticklevel):
             self.ticklevel = other.ticklevel
-- 
2.43.0


From 5697511e67bbb3d1cf833a3345609a973f2d9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 045/185] fix: smoothed deformer failed for subpaths without
 segments (single points)

---
 pyx/deformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index b068726..14909c8 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -558,6 +558,8 @@ class cornersmoothed(baseclasses.deformer): # <<<
                                                 epsilon=pertinentepsilon)
         pertinentnormsubpath.flushskippedline()
         pertinentnormsubpathitems = pertinentnormsubpath.normsubpathitems
+        if not pertinentnormsubpathitems:
+            return normsubpath
 
         # calculate the splitting parameters for the pertinentnormsubpathitems
         arclens_pt = []
-- 
2.43.0


From 6e9ae79757c1abbe795d028abf13c33aea9dfa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 046/185] fix: tiling of boxes depended on the length of the
 direction vector

---
 pyx/box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index c09ed7f..9b2e254 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -283,6 +283,8 @@ def tile_pt(polygons, a, dx, dy):
         if extent > maxextent:
             maxextent = extent
     delta = maxextent + a
+    n = math.hypot(dx, dy)
+    dx, dy = dx / n, dy / n
     d = 0
     for p in polygons:
         p.transform(trafo.translate_pt(d*dx, d*dy))
-- 
2.43.0


From 8c21b11f473e5b7d1af638a1023a43befe0fc846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 047/185] fix: boxes within another box were not recognized as
 overlapping

---
 pyx/box.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyx/box.py b/pyx/box.py
index 9b2e254..94beffb 100644
--- a/pyx/box.py
+++ b/pyx/box.py
@@ -221,6 +221,10 @@ class polygon_pt:
     def pointdistance(self, x, y):
         return self.pointdistance_pt(unit.topt(x), unit.topt(y)) * unit.t_pt
 
+    def _contains_pt(self, x, y):
+        sides = [(p2[0] - p1[0]) * (y - p1[1]) - (p2[1] - p1[1]) * (x - p1[0]) for p1, p2 in self.successivepoints()]
+        return min(sides) > 0 or max(sides) < 0
+
     def boxdistance_pt(self, other, epsilon=1e-10):
         # XXX: boxes crossing and distance calculation is O(N^2)
         for p1, p2 in self.successivepoints():
@@ -232,6 +236,8 @@ class polygon_pt:
                     a / c > -epsilon and a / c < 1 + epsilon and
                     b / c > -epsilon and b / c < 1 + epsilon):
                     raise BoxCrossError
+        if self._contains_pt(*other.corners[0]) or other._contains_pt(*self.corners[0]):
+            raise BoxCrossError
         result = None
         for x, y in other.corners:
             new = self.pointdistance_pt(x, y)
-- 
2.43.0


From 398cf48a1636cf637dd1545f70519336f8c6b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 048/185] fix: files in the current directory were only found
 with the last of the possible extensions

---
 pyx/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index 00272a9..ff6c345 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -86,7 +86,7 @@ class local:
     """locates files in the current directory"""
 
     def openers(self, filename, formats):
-        return [lambda: builtinopen(full_filename, "rb") for full_filename in full_filenames(filename, formats)]
+        return [lambda full_filename=full_filename: builtinopen(full_filename, "rb") for full_filename in full_filenames(filename, formats)]
 
 locator_classes["local"] = local
 
-- 
2.43.0


From b1771ea697dc688434d1de136260a8517bba1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 049/185] fix: calling a pattern replaced the wrong parameters
 and lost its content

---
 pyx/pattern.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index aa4b5fd..cecdf66 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -54,21 +54,26 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
 
     def __call__(self, painttype=_marker, tilingtype=_marker, xstep=_marker, ystep=_marker,
                  bbox=_marker, trafo=_marker, bboxenlarge=_marker):
-        if painttype is not _marker:
+        if painttype is _marker:
             painttype = self.painttype
-        if tilingtype is not _marker:
+        if tilingtype is _marker:
             tilingtype = self.tilingtype
-        if xstep is not _marker:
+        if xstep is _marker:
             xstep = self.xstep
-        if ystep is not _marker:
+        if ystep is _marker:
             ystep = self.ystep
-        if bbox is not _marker:
-            bbox = self.bbox
-        if trafo is not _marker:
-            trafo = self.trafo
-        if bboxenlarge is not _marker:
+        if bbox is _marker:
+            bbox = self.patternbbox
+        if trafo is _marker:
+            trafo = self.patterntrafo
+        if bboxenlarge is _marker:
             bboxenlarge = self.bboxenlarge
-        return pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge)
+        result = pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge, textengine=self.textengine)
+        # copy the content of the canvas
+        result.items = self.items[:]
+        result.layers = self.layers.copy()
+        result.styles, result.trafo, result.clip, result.modifies_state = self.styles, self.trafo, self.clip, self.modifies_state
+        return result
 
     def processPS(self, file, writer, context, registry):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
-- 
2.43.0


From 573ce59ee4860c75c11748c35b6e66624239b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 050/185] fix: files found by recursivedir changed when a file
 of the same name was seen later

---
 pyx/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index ff6c345..44c3b0e 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -129,7 +129,7 @@ class recursivedir:
                 if os.path.isdir(full_item):
                     self.dirs.insert(0, full_item)
                 else:
-                    self.path_cache[item] = full_item
+                    self.path_cache.setdefault(item, full_item)
                     if item in filenames:
                         found = item
             if found:
-- 
2.43.0


From dd160798035bdf54881d4f5560cc5d1a863a8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 051/185] fix: a section of the basepath of a pathpositioner
 raised a TypeError

---
 pyx/graph/axis/positioner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/positioner.py b/pyx/graph/axis/positioner.py
index 7396f5b..35996c6 100644
--- a/pyx/graph/axis/positioner.py
+++ b/pyx/graph/axis/positioner.py
@@ -67,7 +67,7 @@ class pathpositioner(_positioner):
             if v2 is None:
                 return self.normpath.split(self.normpath.arclentoparam(v1 * self.arclen))[1]
             else:
-                return self.normpath.split(*self.normpath.arclentoparam([v1 * self.arclen, v2 * self.arclen]))[1]
+                return self.normpath.split(self.normpath.arclentoparam([v1 * self.arclen, v2 * self.arclen]))[1]
 
     def vtickpoint_pt(self, v):
         return self.normpath.at_pt(self.normpath.arclentoparam(v * self.arclen))
-- 
2.43.0


From abd142791ca1ab4c2bfd1a8cf1981ee7cc33747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 052/185] fix: grid attributes failed for axes without grid
 paths

---
 pyx/graph/axis/painter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/painter.py b/pyx/graph/axis/painter.py
index 8f55b0d..f675595 100644
--- a/pyx/graph/axis/painter.py
+++ b/pyx/graph/axis/painter.py
@@ -239,7 +239,9 @@ class regular(_title):
             if self.gridattrs is not None:
                 gridattrs = attr.selectattrs(self.defaultgridattrs + self.gridattrs, t.ticklevel, maxticklevel)
                 if gridattrs is not None:
-                    canvas.layer("grid").stroke(axispos.vgridpath(t.temp_v), gridattrs)
+                    gridpath = axispos.vgridpath(t.temp_v)
+                    if gridpath is not None:
+                        canvas.layer("grid").stroke(gridpath, gridattrs)
             if t.labellevel is not None and self.labelattrs is not None:
                 canvas.layer("labels").insert(t.temp_labelbox)
                 canvas.labels.append(t.temp_labelbox)
-- 
2.43.0


From 2a8db8f8f6a41cdfc17ef9995146ca267ff05985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 053/185] fix: default attributes cleared in arrows and
 hatchings returned when calling them

---
 pyx/deco.py    | 4 ++--
 pyx/pattern.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index fcfff92..6885cee 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -523,7 +523,7 @@ class arrow(deco, attr.attr):
 
     def __call__(self, attrs=None, pos=None, reversed=None, size=None, angle=None, constriction=_marker):
         if attrs is None:
-            attrs = self.attrs
+            attrs = [attr.clear] + self.attrs # do not add the default attrs again
         if pos is None:
             pos = self.pos
         if reversed is None:
@@ -765,7 +765,7 @@ class linehatched(deco, attr.exclusiveattr, attr.clearclass):
         if angle is None:
             angle = self.angle
         if strokestyles is None:
-            strokestyles = self.strokestyles
+            strokestyles = [attr.clear] + self.strokestyles # do not add the default strokestyles again
         if cross is None:
             cross = self.cross
         return linehatched(dist, angle, strokestyles, cross)
diff --git a/pyx/pattern.py b/pyx/pattern.py
index cecdf66..ac76cf0 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -200,7 +200,7 @@ class hatched(pattern):
         if angle is None:
             angle = self.angle
         if strokestyles is None:
-            strokestyles = self.strokestyles
+            strokestyles = [attr.clear] + self.strokestyles # do not add the default strokestyles again
         return hatched(dist, angle, strokestyles)
 
 hatched0 = hatched(_base, 0)
@@ -281,7 +281,7 @@ class crosshatched(pattern):
         if angle is None:
             angle = self.angle
         if strokestyles is None:
-            strokestyles = self.strokestyles
+            strokestyles = [attr.clear] + self.strokestyles # do not add the default strokestyles again
         return crosshatched(dist, angle, strokestyles)
 
 crosshatched0 = crosshatched(_base, 0)
-- 
2.43.0


From 729958114e531dbb1282be3068e7cbb98beb5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 054/185] fix: minnegexponent of the default texter stuck to a
 former minexponent when calling it

---
 pyx/graph/axis/texter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index ecfd162..37f41de 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -194,7 +194,7 @@ class default(_texter):
         self.skipmantissaunity = skipmantissaunity
         self.minusunity = minusunity
         self.minexponent = minexponent
-        self.minnegexponent = minnegexponent if minnegexponent is not None else minexponent
+        self.minnegexponent = minnegexponent
         self.uniformexponent = uniformexponent
         self.labelattrs = labelattrs
         self.mantissatexter = mantissatexter
@@ -210,6 +210,7 @@ class default(_texter):
 
     def labels(self, ticks):
         labeledticks = []
+        minnegexponent = self.minnegexponent if self.minnegexponent is not None else self.minexponent
         for tick in ticks:
             if tick.label is None and tick.labellevel is not None:
                 labeledticks.append(tick)
@@ -228,11 +229,11 @@ class default(_texter):
                     while tick.temp_mantissa < 1:
                         tick.temp_exponent -= 1
                         tick.temp_mantissa *= self.base
-                    tick.temp_wantexponent = not (-self.minnegexponent < tick.temp_exponent < self.minexponent)
+                    tick.temp_wantexponent = not (-minnegexponent < tick.temp_exponent < self.minexponent)
                 else:
                     tick.temp_mantissa = tick.temp_exponent = 0
                     tick.temp_sign = 1
-                    tick.temp_wantexponent = not (-self.minnegexponent < 0 < self.minexponent)
+                    tick.temp_wantexponent = not (-minnegexponent < 0 < self.minexponent)
 
         # make decision on exponential notation uniform if requested
         if self.uniformexponent and any(tick.temp_wantexponent for tick in labeledticks):
-- 
2.43.0


From d51beb61763dfcc30f16a44559fa9a8bfb9bd0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 055/185] fix: texters given to the default texter were
 replaced when setting a parameter of them

---
 pyx/graph/axis/texter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/texter.py b/pyx/graph/axis/texter.py
index 37f41de..6a6e9f2 100644
--- a/pyx/graph/axis/texter.py
+++ b/pyx/graph/axis/texter.py
@@ -184,9 +184,9 @@ class default(_texter):
         - labelattrs is a list of attributes to be added to the label attributes
           given in the painter"""
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["mantissatexter", "basetexter", "exponenttexter"], allow_only_split=True)
-        if "mantissatexter" in split_kwargs: mantissatexter = decimal(**split_kwargs["mantissatexter"])
-        if "basetexter" in split_kwargs: basetexter = decimal(**split_kwargs["basetexter"])
-        if "exponenttexter" in split_kwargs: exponenttexter = decimal(**split_kwargs["exponenttexter"])
+        if "mantissatexter" in split_kwargs: mantissatexter = mantissatexter(**split_kwargs["mantissatexter"])
+        if "basetexter" in split_kwargs: basetexter = basetexter(**split_kwargs["basetexter"])
+        if "exponenttexter" in split_kwargs: exponenttexter = exponenttexter(**split_kwargs["exponenttexter"])
 
         self.multiplicationtex = multiplicationtex
         self.multiplicationunicode = multiplicationunicode
-- 
2.43.0


From c965b68241d9f66eba79b612133b7e0eded3f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 056/185] fix: default subaxes given to bar axes were replaced
 when setting a parameter of them

---
 pyx/graph/axis/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 50bf955..8ca661e 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -369,7 +369,7 @@ class bar(_axis):
                        painter=painter.bar(), linkpainter=painter.linkedbar(), **kwargs):
         split_kwargs, rest_kwargs = utils.kwsplit(kwargs, ["defaultsubaxis", "painter", "linkpainter"], allow_only_split=True)
 
-        if "defaultsubaxis" in split_kwargs: defaultsubaxis = linear(**split_kwargs["defaultsubaxis"])
+        if "defaultsubaxis" in split_kwargs: defaultsubaxis = defaultsubaxis(**split_kwargs["defaultsubaxis"])
         if "painter" in split_kwargs: painter = painter(**split_kwargs["painter"])
         if "linkpainter" in split_kwargs: linkpainter = linkpainter(**split_kwargs["linkpainter"])
 
-- 
2.43.0


From 96f7c8e0ef3a443c08d45c3e1ad6fe2313257e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 057/185] fix: colorgradient failed on closed paths

---
 pyx/deco.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 6885cee..804eb4a 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -901,19 +901,22 @@ class colorgradient(deco, attr.attr):
 
     def decorate(self, dp, texrunner):
         dp.ensurenormpath()
-        l = dp.path.arclen()
+        # open closed normsubpaths, as splitting them would join their end and begin
+        p = normpath.normpath([normpath.normsubpath(nsp.normsubpathitems, epsilon=nsp.epsilon)
+                               for nsp in dp.path.normsubpaths])
+        l = p.arclen()
 
         colors = [self.grad.select(n, self.steps) for n in range(self.steps)]
         colors.reverse()
-        params = dp.path.arclentoparam([l*i/float(self.steps) for i in range(self.steps)])
+        params = p.arclentoparam([l*i/float(self.steps) for i in range(self.steps)])
         params.reverse()
 
         c = canvas.canvas()
         # treat the end pieces separately
-        c.stroke(dp.path.split(params[1])[1], attr.mergeattrs([colors[0]] + self.attrs))
+        c.stroke(p.split(params[1])[1], attr.mergeattrs([colors[0]] + self.attrs))
         for n in range(1,self.steps-1):
-            c.stroke(dp.path.split([params[n-1],params[n+1]])[1], attr.mergeattrs([colors[n]] + self.attrs))
-        c.stroke(dp.path.split(params[-2])[0], attr.mergeattrs([colors[-1]] + self.attrs))
+            c.stroke(p.split([params[n-1],params[n+1]])[1], attr.mergeattrs([colors[n]] + self.attrs))
+        c.stroke(p.split(params[-2])[0], attr.mergeattrs([colors[-1]] + self.attrs))
         dp.ornaments.insert(c)
 
 
-- 
2.43.0


From 3263ac20d171772e6d2776d738cc7d696fbacc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 058/185] fix: empty comment lines in front of the data removed
 the file column names

---
 pyx/graph/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 81f2582..e19c497 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -296,7 +296,8 @@ class file(data):
                 match = commentpattern.match(line)
                 if match:
                     if not len(columndata):
-                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0)
+                        # empty comment lines do not contain column names
+                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0) or columns
                 else:
                     linedata = []
                     for value in self.splitline(line, stringpattern, columnpattern, tofloat=1):
-- 
2.43.0


From 473298ef9443398f486fbd720d739efe23d73b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 059/185] fix: lines within skiptail were kept in combination
 with every

---
 pyx/graph/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index e19c497..cc5a7e9 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -309,9 +309,8 @@ class file(data):
                                 maxcolumns = len(linedata)
                             columndata.append(linedata)
                         linenumber += 1
-            if skiptail >= every:
-                skip, x = divmod(skiptail, every)
-                del columndata[-skip:]
+            while columndata and columndata[-1][0] > linenumber - skiptail:
+                del columndata[-1]
             for i in range(len(columndata)):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
-- 
2.43.0


From 162da4e1f3fe2853d7e4c258aedbc3373229616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 060/185] fix: config file data failed for sections with
 different options

---
 pyx/graph/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index cc5a7e9..95bc746 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -370,6 +370,8 @@ class conffile(data):
                     else:
                         point[index] = value
                 columndata[i] = point
+            for point in columndata:
+                point.extend([None]*(maxcolumns-len(point)))
             # wrap result into a data instance to remove column numbers
             result = data(points(columndata, addlinenumbers=0, **columns), title=title)
             # ... but reinsert sections as linenumbers
-- 
2.43.0


From 49aadf399f86a9fe311c9d04aefeeaeb81426464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 061/185] fix: functions failed on negative logarithmic axes

---
 pyx/graph/data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 95bc746..73557c7 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -539,13 +539,14 @@ class function(_data):
             max = self.max
         else:
             max = xaxis.data.max
+        sign = -1 if logaxis and max < 0 else 1 # logarithmic axes might be negative
         if logaxis:
-            min = math.log(min)
-            max = math.log(max)
+            min = math.log(sign*min)
+            max = math.log(sign*max)
         for i in range(self.numberofpoints):
             x = min + (max-min)*i / (self.numberofpoints-1.0)
             if logaxis:
-                x = math.exp(x)
+                x = sign*math.exp(x)
             dynamiccolumns[self.xname].append(x)
             self.context[self.xname] = x
             try:
-- 
2.43.0


From eb700ba47107f2094c3ab850fa3c43b1d09b4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 062/185] fix: cbdfile could not read any map data

---
 pyx/graph/data.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 73557c7..ab7213c 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -437,21 +437,21 @@ class cbdfile(data):
                 oln, olt = self.orgx, self.orgy
                 self.points = [(olt, oln)]
                 for i in range(self.nstrokes):
-                    c1, c2 = struct.unpack("2c", file.read(2))
-                    if ord(c2) & 0x40:
-                        if c1 > "\177":
-                            dy = ord(c1) - 256
+                    c1, c2 = struct.unpack("2B", file.read(2))
+                    if c2 & 0x40:
+                        if c1 > 127:
+                            dy = c1 - 256
                         else:
-                            dy = ord(c1)
-                        if c2 > "\177":
-                            dx = ord(c2) - 256
+                            dy = c1
+                        if c2 > 127:
+                            dx = c2 - 256
                         else:
-                            dx = ord(c2) - 64
+                            dx = c2 - 64
                     else:
-                        c3, c4, c5, c6, c7, c8 = struct.unpack("6c", file.read(6))
-                        if c2 > "\177":
-                            c2 = chr(ord(c2) | 0x40)
-                        dx, dy = struct.unpack("<2i", c3+c4+c1+c2+c7+c8+c5+c6)
+                        c3, c4, c5, c6, c7, c8 = struct.unpack("6B", file.read(6))
+                        if c2 > 127:
+                            c2 |= 0x40
+                        dx, dy = struct.unpack("<2i", bytes([c3, c4, c1, c2, c7, c8, c5, c6]))
                     oln += dx
                     olt += dy
                     self.points.append((olt, oln))
-- 
2.43.0


From 32091787aecc6be4100f7c132deb4989be67c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 063/185] fix: SVG lines without all coordinates failed

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 0f956f9..8db69f9 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -419,7 +419,7 @@ class svgHandler(svgBaseHandler):
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname in ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"]:
                 if localname == "line":
-                    p = path.line_pt(floatAttr("x1"), floatAttr("y1"), floatAttr("x2"), floatAttr("y2"))
+                    p = path.line_pt(floatAttr("x1", 0), floatAttr("y1", 0), floatAttr("x2", 0), floatAttr("y2", 0))
                 elif localname == "rect":
                     x, y = floatAttr("x", 0), floatAttr("y", 0)
                     width, height = floatAttr("width"), floatAttr("height")
-- 
2.43.0


From 6c0b079739665b396e9fccc45df61d55adeecd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 064/185] fix: SVG numbers with a trailing decimal point were
 rejected

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 8db69f9..f9ba16a 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -83,7 +83,7 @@ class svgValueError(ValueError): pass
 
 class _marker: pass
 
-_svgFloatPattern = re.compile(r"(?P<value>[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
+_svgFloatPattern = re.compile(r"(?P<value>[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
 _svgBoolPattern = re.compile(r"(?P<bool>[01])\s*,?\s*")
 _svgPathPattern = re.compile(r"(?P<cmd>[mlhvcsqtaz])\s*(?P<args>(([^mlhvcsqtaz]|pt|pc|mm|cm)*))", re.IGNORECASE)
 _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]+)\s*,\s*(?P<blue>[0-9]+)\s*\)$", re.IGNORECASE)
-- 
2.43.0


From b88df9083f96da033ac2ab42a2c7abaf4f7ea085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 065/185] fix: the viewBox of SVG files was clipped in the
 wrong unit

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index f9ba16a..3006f8f 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -393,7 +393,7 @@ class svgHandler(svgBaseHandler):
                 if (None, "viewBox") in attributes:
                     inner_x, inner_y, inner_width, inner_height = self.toFloats(attributes[None, "viewBox"])
                     if attributes.get((None, "clip"), "auto") == "auto":
-                        attrs.append(canvas.clip(path.rect(inner_x, inner_y, inner_width, inner_height)))
+                        attrs.append(canvas.clip(path.rect_pt(inner_x, inner_y, inner_width, inner_height)))
                     outer_width = self.toFloat(attributes.get((None, "width"), "100%"), single=True, relative=inner_width)
                     outer_height = self.toFloat(attributes.get((None, "height"), "100%"), single=True, relative=inner_height)
                     self.bbox = bbox.bbox_pt(outer_x, -outer_y, outer_x+outer_width, -outer_y+outer_height)
-- 
2.43.0


From 0405fa0cc14ff573d663cda12b0abc79be7dcae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 066/185] fix: the default line width of SVG files was not one
 user unit

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 3006f8f..03e6c30 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -387,7 +387,7 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
-                attrs = pathAttrs([style.linewidth(1*unit.t_pt), style.miterlimit(4)])
+                attrs = pathAttrs([style.linewidth(self.units[""]*unit.t_pt), style.miterlimit(4)])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
-- 
2.43.0


From c6b2b9bf0c2ac9ed344ece3acf07d968d7f6ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 067/185] fix: the miter limit of SVG files was taken as a
 length

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 03e6c30..3b5edcf 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -376,7 +376,7 @@ class svgHandler(svgBaseHandler):
                               "round": style.linejoin.round,
                               "bevel": style.linejoin.bevel}[attributes[None, "stroke-linejoin"]])
             if (None, "stroke-miterlimit") in attributes:
-                attrs.append(style.miterlimit(floatAttr("stroke-miterlimit")))
+                attrs.append(style.miterlimit(self.toFloat(attributes[None, "stroke-miterlimit"], units=False)[0]))
             if (None, "stroke-width") in attributes:
                 attrs.append(style.linewidth(floatAttr("stroke-width")*unit.t_pt))
             if (None, "fill-rule") in attributes:
-- 
2.43.0


From a38636f4169d3de32c5d6356f10816853bb2fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 068/185] fix: matrix and skew transformations of SVG files
 were wrong

---
 pyx/svgfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 3b5edcf..8643c64 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -252,7 +252,7 @@ class svgHandler(svgBaseHandler):
                 d, args = self.toFloat(args, units=False)
                 e, args = self.toFloat(args)
                 f = self.toFloat(args, single=True)
-                t = t * trafo.trafo_pt(((a, b), (c, d)), (e, f))
+                t = trafo.trafo_pt(((a, c), (b, d)), (e, f)) * t
             elif cmd == "translate":
                 args = list(self.toFloats(args))
                 if len(args) == 1:
@@ -274,10 +274,10 @@ class svgHandler(svgBaseHandler):
                     b, c = 0, 0
                 t = t.rotated_pt(a, b, c)
             elif cmd == "skewX":
-                t = t * trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1)))
+                t = trafo.trafo_pt(((1, math.tan(self.toFloat(args, units=False, single=True)*math.pi/180)), (0, 1))) * t
             else:
                 assert cmd == "skewY"
-                t = t * trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1)))
+                t = trafo.trafo_pt(((1, 0), (math.tan(self.toFloat(args, units=False, single=True)*math.pi/180), 1))) * t
         return t
 
     def toColor(self, name, inherit):
-- 
2.43.0


From 747cd47c344422ae1ffe27891dc39a7cec010e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 069/185] fix: white space in SVG transformations was not
 accepted

---
 pyx/svgfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 8643c64..d72d6ca 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -83,7 +83,7 @@ class svgValueError(ValueError): pass
 
 class _marker: pass
 
-_svgFloatPattern = re.compile(r"(?P<value>[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
+_svgFloatPattern = re.compile(r"\s*(?P<value>[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?)(?P<unit>(px|pt|pc|mm|cm|in|%)?)\s*,?\s*")
 _svgBoolPattern = re.compile(r"(?P<bool>[01])\s*,?\s*")
 _svgPathPattern = re.compile(r"(?P<cmd>[mlhvcsqtaz])\s*(?P<args>(([^mlhvcsqtaz]|pt|pc|mm|cm)*))", re.IGNORECASE)
 _svgColorAbsPattern = re.compile(r"rgb\(\s*(?P<red>[0-9]+)\s*,\s*(?P<green>[0-9]+)\s*,\s*(?P<blue>[0-9]+)\s*\)$", re.IGNORECASE)
@@ -242,7 +242,7 @@ class svgHandler(svgBaseHandler):
 
     def toTrafo(self, svgTrafo):
         t = trafo.identity
-        for match in reversed(list(re.finditer(r"(?P<cmd>matrix|translate|scale|rotate|skewX|skewY)\((?P<args>[^)]*)\)", svgTrafo))):
+        for match in reversed(list(re.finditer(r"(?P<cmd>matrix|translate|scale|rotate|skewX|skewY)\s*\((?P<args>[^)]*)\)", svgTrafo))):
             cmd = match.group("cmd")
             args = match.group("args")
             if cmd == "matrix":
-- 
2.43.0


From b582b12e88569a9ef98c84bb1642df99d9f80f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 070/185] fix: the line width of transformed SVG shapes was not
 transformed

---
 pyx/svgfile.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index d72d6ca..edbe935 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -356,13 +356,16 @@ class svgHandler(svgBaseHandler):
                 except KeyError:
                     return default
 
+        def trafoAttrs():
+            if (None, "transform") in attributes:
+                return [self.toTrafo(attributes[None, "transform"])]
+            return []
+
         def pathAttrs(default=_marker):
             if default is not _marker:
                 attrs = default
             else:
                 attrs = []
-            if (None, "transform") in attributes:
-                attrs.append(self.toTrafo(attributes[None, "transform"]))
             if (None, "stroke-dasharray") in attributes:
                 attrs.append(style.dash(self.toFloats(attributes[None, "stroke-dasharray"]),
                                         offset=floatAttr("stroke-dashoffset", 0),
@@ -387,7 +390,7 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "svg":
-                attrs = pathAttrs([style.linewidth(self.units[""]*unit.t_pt), style.miterlimit(4)])
+                attrs = trafoAttrs() + pathAttrs([style.linewidth(self.units[""]*unit.t_pt), style.miterlimit(4)])
                 outer_x = self.toFloat(attributes.get((None, "x"), "0"), single=True)
                 outer_y = self.toFloat(attributes.get((None, "y"), "0"), single=True)
                 if (None, "viewBox") in attributes:
@@ -414,7 +417,7 @@ class svgHandler(svgBaseHandler):
                 self.canvas = canvas.canvas(attrs)
             elif localname == "g":
                 self.stack.append((self.canvas, self.stroke, self.fill))
-                self.canvas = self.canvas.insert(canvas.canvas(pathAttrs()))
+                self.canvas = self.canvas.insert(canvas.canvas(trafoAttrs() + pathAttrs()))
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname in ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"]:
@@ -471,7 +474,11 @@ class svgHandler(svgBaseHandler):
                     if stroke:
                         attrs.append(deco.stroked([stroke]))
                     if stroke or fill:
-                        self.canvas.draw(p, attrs)
+                        # the transformation does also apply to the stroke
+                        c = self.canvas
+                        if trafoAttrs():
+                            c = c.insert(canvas.canvas(trafoAttrs()))
+                        c.draw(p, attrs)
 
     def endElementNS(self, name, qname):
         namespace, localname = name
-- 
2.43.0


From 83056a43427e635db48daed05e1cc2846ef9a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 071/185] fix: fill and stroke of the root element of SVG files
 were ignored

---
 pyx/svgfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index edbe935..121b24d 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -415,6 +415,8 @@ class svgHandler(svgBaseHandler):
                     raise ValueError("SVG viewbox or width and height missing, we continue by aligning by SVG coordinates (top-left) instead of PyX-like (bottom-left) and calculate the bbox from the SVG content")
                 attrs.append(trafo.mirror(0))
                 self.canvas = canvas.canvas(attrs)
+                self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
+                self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
                 self.stack.append((self.canvas, self.stroke, self.fill))
                 self.canvas = self.canvas.insert(canvas.canvas(trafoAttrs() + pathAttrs()))
-- 
2.43.0


From 9052f57640d155227dcac6f62ef7f8137ee2e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 072/185] fix: dashes of SVG files were lost when written again
 or none

---
 pyx/svgfile.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 121b24d..0f2848a 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -367,9 +367,12 @@ class svgHandler(svgBaseHandler):
             else:
                 attrs = []
             if (None, "stroke-dasharray") in attributes:
-                attrs.append(style.dash(self.toFloats(attributes[None, "stroke-dasharray"]),
-                                        offset=floatAttr("stroke-dashoffset", 0),
-                                        rellengths=False))
+                if attributes[None, "stroke-dasharray"].strip() == "none":
+                    attrs.append(style.dash())
+                else:
+                    attrs.append(style.dash(list(self.toFloats(attributes[None, "stroke-dasharray"])),
+                                            offset=floatAttr("stroke-dashoffset", 0),
+                                            rellengths=False))
             if (None, "stroke-linecap") in attributes:
                 attrs.append({"butt": style.linecap.butt,
                               "round": style.linecap.round,
-- 
2.43.0


From 2575b40eb929fcb3098d34826379a692d1cc98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 073/185] fix: smooth SVG curves continued other path commands

---
 pyx/svgfile.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 0f2848a..1fa2dcc 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -148,6 +148,11 @@ class svgHandler(svgBaseHandler):
         for match in _svgPathPattern.finditer(svgPath):
             cmd = match.group("cmd")
             args = match.group("args")
+            # a smooth curve continues a preceding curve of the same degree only
+            if cmd not in "CcSs":
+                cubic = 0, 0
+            if cmd not in "QqTt":
+                quadratic = 0, 0
             try:
                 if cmd not in "aA":
                     args = self.toFloats(args)
@@ -177,20 +182,14 @@ class svgHandler(svgBaseHandler):
                             x1, y1, x2, y2, x3, y3, *args = args
                         else:
                             x2, y2, x3, y3, *args = args
-                            if isinstance(p[-1], path.curveto_pt):
-                                x1 = p[-1].x3_pt - p[-1].x2_pt
-                                y1 = p[-1].y3_pt - p[-1].y2_pt
-                            elif isinstance(p[-1], path.rcurveto_pt):
-                                x1 = p[-1].dx3_pt - p[-1].dx2_pt
-                                y1 = p[-1].dy3_pt - p[-1].dy2_pt
-                            else:
-                                x1, y1 = 0, 0
+                            x1, y1 = cubic
                             if cmd == "S":
                                 x0, y0 = p.atend_pt()
                                 x1 += x0
                                 y1 += y0
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3) if cmd.isupper() else
                                  path.rcurveto_pt(x1, y1, x2, y2, x3, y3))
+                        cubic = x3 - x2, y3 - y2
                 elif cmd in "QqTt":
                     while args:
                         x0, y0 = p.atend_pt()
@@ -206,19 +205,14 @@ class svgHandler(svgBaseHandler):
                             if cmd == "t":
                                 x3 += x0
                                 y3 += y0
-                            if isinstance(p[-1], path.curveto_pt):
-                                xq = x0 + 3/2 * (p[-1].x3_pt - p[-1].x2_pt)
-                                yq = y0 + 3/2 * (p[-1].y3_pt - p[-1].y2_pt)
-                            elif isinstance(p[-1], path.rcurveto_pt):
-                                xq = x0 + 3/2 * (p[-1].dx3_pt - p[-1].dx2_pt)
-                                yq = y0 + 3/2 * (p[-1].dy3_pt - p[-1].dy2_pt)
-                            else:
-                                xq, yq = p.atend_pt()
+                            xq = x0 + quadratic[0]
+                            yq = y0 + quadratic[1]
                         x1 = x0 + 2/3 * (xq - x0)
                         y1 = y0 + 2/3 * (yq - y0)
                         x2 = x3 + 2/3 * (xq - x3)
                         y2 = y3 + 2/3 * (yq - y3)
                         p.append(path.curveto_pt(x1, y1, x2, y2, x3, y3))
+                        quadratic = x3 - xq, y3 - yq
                 elif cmd in "aA":
                         while args:
                             rx, args = self.toFloat(args)
-- 
2.43.0


From fbc15ffe35747a754bd29f145bba88dcad86c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 074/185] fix: SVG arcs which end where they start failed

---
 pyx/svgfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 1fa2dcc..364c83b 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -226,6 +226,8 @@ class svgHandler(svgBaseHandler):
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
+                            if x1 == x2 and y1 == y2:
+                                continue
                             p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
                 else:
                     assert cmd in "zZ"
-- 
2.43.0


From 56741f36dde8934f65776f3220743ebc6a073639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 075/185] fix: the rotation of SVG arcs was scaled as a length

---
 pyx/svgfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 364c83b..602e3f2 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -217,7 +217,7 @@ class svgHandler(svgBaseHandler):
                         while args:
                             rx, args = self.toFloat(args)
                             ry, args = self.toFloat(args)
-                            phi, args = self.toFloat(args)
+                            phi, args = self.toFloat(args, units=False)
                             fA, args = self.toBool(args)
                             fS, args = self.toBool(args)
                             x2, args = self.toFloat(args)
-- 
2.43.0


From 53141fbe8cf6683792f518b8e1d7d3bedb228924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 076/185] fix: very short SVG arcs failed

---
 pyx/svgfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 602e3f2..0fcdb4d 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -226,7 +226,9 @@ class svgHandler(svgBaseHandler):
                             if cmd == "a":
                                 x2 += x1
                                 y2 += y1
-                            if x1 == x2 and y1 == y2:
+                            if math.hypot(x2 - x1, y2 - y1) < 1e-5:
+                                # too short for a normpath
+                                p.append(path.lineto_pt(x2, y2))
                                 continue
                             p.join(endpointarc(x1, y1, x2, y2, fA, fS, rx, ry, phi))
                 else:
-- 
2.43.0


From 9f1da4ae859b62d85abae333444c4f7c060f15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 077/185] fix: dash arrays and offsets of SVG files were not
 inherited separately

---
 pyx/svgfile.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyx/svgfile.py b/pyx/svgfile.py
index 0fcdb4d..32e2610 100644
--- a/pyx/svgfile.py
+++ b/pyx/svgfile.py
@@ -135,6 +135,8 @@ class svgHandler(svgBaseHandler):
         self.stack = []
         self.stroke = None
         self.fill = color.grey.black
+        self.dasharray = []
+        self.dashoffset = 0
 
     def toBool(self, arg):
         match = _svgBoolPattern.match(arg)
@@ -364,13 +366,15 @@ class svgHandler(svgBaseHandler):
                 attrs = default
             else:
                 attrs = []
+            dasharray = self.dasharray
+            dashoffset = floatAttr("stroke-dashoffset", self.dashoffset)
             if (None, "stroke-dasharray") in attributes:
                 if attributes[None, "stroke-dasharray"].strip() == "none":
-                    attrs.append(style.dash())
+                    dasharray = []
                 else:
-                    attrs.append(style.dash(list(self.toFloats(attributes[None, "stroke-dasharray"])),
-                                            offset=floatAttr("stroke-dashoffset", 0),
-                                            rellengths=False))
+                    dasharray = list(self.toFloats(attributes[None, "stroke-dasharray"]))
+            if (None, "stroke-dasharray") in attributes or (None, "stroke-dashoffset") in attributes:
+                attrs.append(style.dash(dasharray, offset=dashoffset, rellengths=False))
             if (None, "stroke-linecap") in attributes:
                 attrs.append({"butt": style.linecap.butt,
                               "round": style.linecap.round,
@@ -386,6 +390,9 @@ class svgHandler(svgBaseHandler):
             if (None, "fill-rule") in attributes:
                 attrs.append({"nonzero": style.fillrule.nonzero_winding,
                               "evenodd": style.fillrule.even_odd}[attributes[None, "fill-rule"]])
+            if localname in ["svg", "g"]:
+                self.dasharray = dasharray
+                self.dashoffset = dashoffset
             return attrs
 
         namespace, localname = name
@@ -419,7 +426,7 @@ class svgHandler(svgBaseHandler):
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
             elif localname == "g":
-                self.stack.append((self.canvas, self.stroke, self.fill))
+                self.stack.append((self.canvas, self.stroke, self.fill, self.dasharray, self.dashoffset))
                 self.canvas = self.canvas.insert(canvas.canvas(trafoAttrs() + pathAttrs()))
                 self.fill = self.toColor(attributes.get((None, "fill"), "inherit"), self.fill)
                 self.stroke = self.toColor(attributes.get((None, "stroke"), "inherit"), self.stroke)
@@ -487,7 +494,7 @@ class svgHandler(svgBaseHandler):
         namespace, localname = name
         if namespace == "http://www.w3.org/2000/svg":
             if localname == "g":
-                self.canvas, self.stroke, self.fill = self.stack.pop()
+                self.canvas, self.stroke, self.fill, self.dasharray, self.dashoffset = self.stack.pop()
 
 class svgBboxDoneException(Exception): pass
 
-- 
2.43.0


From 75932f9b7bea4e46dd2a0a29eca31cbdf2d32e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 078/185] fix: hexadecimal encoding of bitmaps failed

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6adba06..c91f771 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -88,8 +88,8 @@ def asciihexlines(datalen):
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
-    for i in range((len(hexdata)-1)/_asciihexlinelength + 1):
-        file.write(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
+    for i in range((len(hexdata)-1)//_asciihexlinelength + 1):
+        file.write_bytes(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
         file.write("\n")
 
 
-- 
2.43.0


From ff9b2306f40f716b6aead248a5440b3b83da8bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 079/185] fix: wrong number of lines announced for bitmap data

---
 pyx/bitmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index c91f771..d1969d7 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -43,7 +43,7 @@ decodestrings = {"L": "[0 1]",
 def ascii85lines(datalen):
     if datalen < 4:
         return 1
-    return (datalen + 56)/60
+    return (datalen + 56)//60
 
 def ascii85stream(file, data):
     """Encodes the string data in ASCII85 and writes it to
@@ -84,7 +84,7 @@ def ascii85stream(file, data):
 
 _asciihexlinelength = 64
 def asciihexlines(datalen):
-    return (datalen*2 + _asciihexlinelength - 1) / _asciihexlinelength
+    return (datalen*2 + _asciihexlinelength - 1) // _asciihexlinelength
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
@@ -234,7 +234,7 @@ class PSimagedata(pswriter.PSresource):
             datalen = len(self.data)
             tailpos = datalen - datalen % self.maxstrlen
             file.write("%%%%BeginData: %i ASCII Lines\n" %
-                       ((tailpos/self.maxstrlen) * ascii85lines(self.maxstrlen) +
+                       ((tailpos//self.maxstrlen) * ascii85lines(self.maxstrlen) +
                         ascii85lines(datalen-tailpos)))
             file.write("[ ")
             for i in range(0, tailpos, self.maxstrlen):
@@ -524,7 +524,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             if self.PSbinexpand == 2:
                 file.write("%%%%BeginData: %i ASCII Lines\n"
-                           "image\n" % (asciihexlines(len(data)) + 1))
+                           "image\n" % (asciihexlines(len(data)) + 2))
                 asciihexstream(file, data)
                 file.write(">\n")
             else:
-- 
2.43.0


From 3d7e002c932820a9a3b63da3bd574addfc0cea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 080/185] fix: wrong size of gray and cmyk palettes

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index d1969d7..252c0c6 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -304,7 +304,7 @@ class PDFimage(pdfwriter.PDFobject):
                    "/Width %d\n" % self.width)
         file.write("/Height %d\n" % self.height)
         if self.palettedata is not None:
-            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)/3-1))
+            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)//len(self.palettemode)-1))
             file.write("%d 0 R\n" % registry.getrefno(self.PDFpalettedata))
             file.write("]\n")
         else:
@@ -463,7 +463,7 @@ class bitmap_trafo(baseclasses.canvasitem):
 
         file.write("gsave\n")
         if palettedata is not None:
-            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)/3-1))
+            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)//len(palettemode)-1))
             file.write("%%%%BeginData: %i ASCII Lines\n" % ascii85lines(len(palettedata)))
             file.write("<~")
             ascii85stream(file, palettedata)
-- 
2.43.0


From d686b376e8af001594b16c7a6033d937892be9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 081/185] fix: wrong vertical resolution of JPEG files using
 dots per cm

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 252c0c6..d53dc34 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -200,7 +200,7 @@ class jpegimage(image):
                         if dpikind == 1:
                             self.info = {"dpi": (xdpi, ydpi)}
                         elif dpikind == 2:
-                            self.info = {"dpi": (xdpi*2.54, ydpi*2.45)}
+                            self.info = {"dpi": (xdpi*2.54, ydpi*2.54)}
                         # else do not provide dpi information
                         pos += l+1
                 pos += 1
-- 
2.43.0


From fcb2f103b641c25db9dbf1d7f04d6c8ac10df4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 082/185] fix: PDF images sharing the data but not the size,
 mode, palette or alpha were mixed up

---
 pyx/bitmap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index d53dc34..cb83238 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -540,6 +540,9 @@ class bitmap_trafo(baseclasses.canvasitem):
     def processPDF(self, file, writer, context, registry, bbox):
         mode, data, alpha, palettemode, palettedata, imagehash = self.imagedata(False)
 
+        # the name needs to be different for images, which share the data only
+        imagehash = hashlib.sha1(repr((imagehash, self.imagewidth, self.imageheight, mode,
+                                       palettemode, palettedata, alpha)).encode("ascii")).hexdigest()[0:15]
         name = "image-%s-%s" % (imagehash, self.compressmode or self.imagecompressed)
         if alpha:
             alpha = PDFimage("%s-smask" % name, self.imagewidth, self.imageheight,
-- 
2.43.0


From 6421b1b5f26fb2294f5bc75b2f40400013d12901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 083/185] fix: JPEG files failed when segments contained data
 looking like markers

---
 pyx/bitmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index cb83238..e00694a 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -203,8 +203,12 @@ class jpegimage(image):
                             self.info = {"dpi": (xdpi*2.54, ydpi*2.54)}
                         # else do not provide dpi information
                         pos += l+1
+                    elif data[pos+1] != 1 and not 0o320 <= data[pos+1] <= 0o327:
+                        # skip the data of other segments, which might look like markers
+                        l, = struct.unpack(">H", data[pos+2:pos+4])
+                        pos += l+1
                 pos += 1
-        except IndexError:
+        except (IndexError, struct.error):
             raise ValueError("end marker expected")
         image.__init__(self, width, height, mode, data[begin:end], compressed="DCT")
 
-- 
2.43.0


From 8d3c6e01ca426b46130184055a1a9bca6c0ae597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 084/185] fix: reading lines after reading the rest of an EPS
 file failed

---
 pyx/epsfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index c6c663a..1144b5b 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -102,7 +102,7 @@ class linefilereader:
             if EOFmsg is not None and not len(self.buffer):
                 raise IOError(EOFmsg)
             result = self.buffer
-            self.buffer = ""
+            self.buffer = b""
             return result
 
     def readline(self, EOFmsg="unexpected end of file"):
-- 
2.43.0


From 46a96c015a540628e87272806ecef8bf4fc4b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 085/185] fix: the end of an included EPS file without final
 newline was not marked

---
 pyx/epsfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index 1144b5b..499223b 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -335,7 +335,10 @@ class epsfile(baseclasses.canvasitem):
         file.write("%%%%BeginDocument: %s\n" % self.filename)
 
         with self.open() as epsfile:
-            file.write_bytes(epsfile.read())
+            data = epsfile.read()
+            file.write_bytes(data)
+            if not data.endswith((b"\n", b"\r")):
+                file.write("\n")
 
         file.write("%%EndDocument\n")
         file.write("EndEPSF\n")
-- 
2.43.0


From 17fcd89d70cadbc16660d078bbee75b31530a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 086/185] fix: EPS files with the bounding box at the end
 failed

---
 pyx/epsfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index 499223b..73162f9 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -152,7 +152,7 @@ def _readbbox(file):
             break
         if line.startswith(b"%%BoundingBox:") and not bboxatend:
             values = line.split(b":", 1)[1].split()
-            if values == ["(atend)"]:
+            if values == [b"(atend)"]:
                 bboxatend = 1
             else:
                 if len(values) != 4:
@@ -170,7 +170,7 @@ def _readbbox(file):
     while True:
         line = file.readline()
         if line.startswith(b"%%BeginData:"):
-            values = line.split(":", 1)[1].split()
+            values = line.split(b":", 1)[1].split()
             if len(values) > 3:
                 raise IOError("invalid number of arguments")
             if len(values) == 3:
@@ -185,12 +185,12 @@ def _readbbox(file):
                 file.read(int(values[0]))
             line = file.readline()
             # ignore tailing whitespace/newline for binary data
-            if (len(values) < 3 or values[2] != "Lines") and not len(line.strip()):
+            if (len(values) < 3 or values[2] != b"Lines") and not len(line.strip()):
                 line = file.readline()
             if line.rstrip() != b"%%EndData":
                 raise IOError("missing EndData")
         elif line.startswith(b"%%BeginBinary:"):
-            file.read(int(line.split(":", 1)[1]))
+            file.read(int(line.split(b":", 1)[1]))
             line = file.readline()
             # ignore tailing whitespace/newline
             if not len(line.strip()):
@@ -211,7 +211,7 @@ def _readbbox(file):
     line = True
     while line:
         line = file.readline(EOFmsg=None)
-        if line.startswith("%%BoundingBox:"):
+        if line.startswith(b"%%BoundingBox:"):
             values = line.split(b":", 1)[1].split()
             if len(values) != 4:
                 raise IOError("invalid number of bounding box values")
-- 
2.43.0


From 12fdd6b86de4557a101ec71523e9262fa3becb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 087/185] fix: writing a mesh without extent in one direction
 failed

---
 pyx/mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/mesh.py b/pyx/mesh.py
index cea0e5e..43bbbcb 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -61,6 +61,8 @@ class element:
 
 
 def coords24bit_pt(coords_pt, min_pt, max_pt):
+    if max_pt == min_pt:
+        return b"\000\000\000"
     return struct.pack(">I", int((coords_pt-min_pt)*16777215.0/(max_pt-min_pt)))[1:]
 
 
-- 
2.43.0


From 923e26a88cc1160685bf290ac9882c512f8d9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 088/185] fix: the box of a pattern was rounded to integers in
 PDF output

---
 pyx/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index ac76cf0..849688b 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -339,7 +339,7 @@ class PDFpattern(pdfwriter.PDFobject):
                    "/PatternType %d\n" % self.patterntype)
         file.write("/PaintType %d\n" % self.painttype)
         file.write("/TilingType %d\n" % self.tilingtype)
-        file.write("/BBox [%d %d %d %d]\n" % self.bbox.lowrestuple_pt())
+        file.write("/BBox [%f %f %f %f]\n" % self.bbox.highrestuple_pt())
         file.write("/XStep %f\n" % self.xstep)
         file.write("/YStep %f\n" % self.ystep)
         file.write("/Matrix %s\n" % str(self.trafo))
-- 
2.43.0


From 51c9f05f93ff1c53b7e2da6dfda67d68684a2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 089/185] fix: patterns were displaced in SVG output

---
 pyx/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index 849688b..31b8772 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -379,6 +379,8 @@ class SVGpattern(svgwriter.SVGresource):
 
         attrs = {"id": self.svgid, "patternUnits": "userSpaceOnUse"}
         llx, lly, urx, ury = patternbbox.highrestuple_pt()
+        attrs["x"] = "%g" % llx
+        attrs["y"] = "%g" % -ury
         attrs["viewBox"] = "%g %g %g %g" % (llx, -ury, urx-llx, ury-lly)
         attrs["width"] = "%g" % (urx-llx)
         attrs["height"] = "%g" % (ury-lly)
-- 
2.43.0


From e244cdb186a771c095dc10ccad166e4e53ca1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 090/185] fix: patterns following a color were lost in PDF
 output

---
 pyx/pattern.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index 31b8772..187de5d 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -153,15 +153,13 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
                                 patternbbox, xstep, ystep, patterntrafo, patternproc, writer, registry, patternregistry))
 
         # activate pattern
-        if context.colorspace != "Pattern":
-            # we only set the fill color space (see next comment)
-            file.write("/Pattern cs\n")
-            context.colorspace = "Pattern"
         if context.strokeattr:
             # using patterns as stroke colors doesn't seem to work, so
             # we just don't do this...
             logger.warning("ignoring stroke color for patterns in PDF")
         if context.fillattr:
+            # always select the color space, as any color used meanwhile has changed it
+            file.write("/Pattern cs\n")
             file.write("/%s scn\n"% self.id)
 
     def processSVGattrs(self, attrs, writer, context, registry):
-- 
2.43.0


From 9a3763d2744c77c6f1e3a113ee153cf035a14cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 091/185] fix: stroke and fill styles leaked into the ornaments
 of a path in SVG output

---
 pyx/deco.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 804eb4a..a01300a 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -321,6 +321,9 @@ class decoratedpath(baseclasses.canvasitem):
         if gattrs:
             xml.startSVGElement("g", gattrs)
 
+        # the ornaments are not affected by the stroke and fill styles
+        ornamentscontext = acontext()
+
         if strokepath is not fillpath:
             if self.fillstyles is not None:
                 attrs = {"d": fillpath.returnSVGdata()}
@@ -374,7 +377,7 @@ class decoratedpath(baseclasses.canvasitem):
             else:
                 bbox += strokepath.bbox()
 
-        self.ornaments.processSVG(xml, writer, acontext, registry, bbox)
+        self.ornaments.processSVG(xml, writer, ornamentscontext, registry, bbox)
 
         if gattrs:
             xml.endSVGElement("g")
-- 
2.43.0


From f1920327de6a1d8a0d663e3fa7820f17ae5c3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 092/185] fix: parallel merged intersections at the same
 position on distant path items (empty inner parallel of circles)

---
 pyx/deformer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index 14909c8..cda1659 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -784,6 +784,14 @@ class mynormpathparam(normpath.normpathparam): # <<<
         A, B = self.normpath.at_pt([self, other])
         return math.hypot(A[0]-B[0], A[1]-B[1]) < epsilon
 
+    def is_adjacent(self, other):
+        """Test whether the two params are on the same or on successive nsp-items"""
+        if self.normsubpathindex != other.normsubpathindex:
+            return False
+        nsp = self.normpath[self.normsubpathindex]
+        distance = abs(self.normsubpathitemindex - other.normsubpathitemindex)
+        return distance <= 1 or (nsp.closed and distance == len(nsp) - 1)
+
     def is_beg_of_nspitem(self, epsilon=None):
         if self.beg_nspitem_known:
             return True
@@ -1647,7 +1655,8 @@ class parallel(baseclasses.deformer): # <<<
         delete_values = []
         # TODO: improve complexity?
         for pi, pj in parampairs.items():
-            if npp_i.is_equiv(pi, epsilon) and npp_j.is_equiv(pj, epsilon):
+            if (npp_i.is_adjacent(pi) and npp_j.is_adjacent(pj) and
+                npp_i.is_equiv(pi, epsilon) and npp_j.is_equiv(pj, epsilon)):
                 #print("double pair: ", npp_i, npp_j, pi, pj)
                 #print("... replacing ", pi, parampairs[pi], "by", min(npp_i, pi), max(npp_j, pj))
                 delete_keys.append(pi)
-- 
2.43.0


From d5a8d96854a99a8d5fb94ed6dd2821cc044c55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 093/185] fix: parallel of an empty path failed with an
 IndexError

---
 pyx/deformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index cda1659..0859374 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -903,7 +903,7 @@ class parallel(baseclasses.deformer): # <<<
                 par_to_orig[key] = par2orig[key]
         result = normpath.normpath(resultnormsubpaths)
 
-        if self.dointersection:
+        if self.dointersection and basepath.normsubpaths:
             result = self.rebuild_intersected_normpath(result, basepath, par_to_orig)
 
         return result
-- 
2.43.0


From c8e9531e052778a7f5ff8458e11ccf2f82d7a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 094/185] fix: smoothed dropped the beginning of open subpaths
 consisting of a single item

---
 pyx/deformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index 0859374..1ac6255 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -578,6 +578,9 @@ class cornersmoothed(baseclasses.deformer): # <<<
             params[0] = pertinentnormsubpathitems[0].arclentoparam_pt([l1_pt, l2_pt], epsilon)
             l1_pt = min(radius_pt, arclens_pt[-1])
             l2_pt = arclens_pt[-1]
+            if len(pertinentnormsubpathitems) == 1:
+                # there is no corner at all
+                l1_pt = 0
             params[-1] = pertinentnormsubpathitems[-1].arclentoparam_pt([l1_pt, l2_pt], epsilon)
 
         newnormsubpath = normpath.normsubpath(epsilon=normsubpath.epsilon)
-- 
2.43.0


From a40e6cfe626dc6227620f7fe06256f97a065c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 095/185] fix: smoothed failed with a ValueError for subpaths
 shorter than the skip threshold

---
 pyx/deformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index 1ac6255..da8393d 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -556,7 +556,11 @@ class cornersmoothed(baseclasses.deformer): # <<<
         pertinentepsilon = max(epsilon, self.relskipthres*radius_pt)
         pertinentnormsubpath = normpath.normsubpath(normsubpath.normsubpathitems,
                                                 epsilon=pertinentepsilon)
-        pertinentnormsubpath.flushskippedline()
+        try:
+            pertinentnormsubpath.flushskippedline()
+        except ValueError:
+            # the whole normsubpath is too short
+            return normsubpath
         pertinentnormsubpathitems = pertinentnormsubpath.normsubpathitems
         if not pertinentnormsubpathitems:
             return normsubpath
-- 
2.43.0


From 73924a413e2d996210428b34ac90f91c8153b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 096/185] fix: control distances for parallel tangents without
 curvature failed with an AssertionError

---
 pyx/deformer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index da8393d..ddbbe4a 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -119,17 +119,20 @@ def controldists_from_endgeometry_pt(A, B, tangA, tangB, curvA, curvB, allownega
                if curvB is inf_curvature:
                    b = small
                elif is_zero(curvB):
-                    assert abs(E) < 1.0e-10
+                    if abs(E) >= 1.0e-10:
+                        return None # parallel lines cannot be connected without curvature
                     b = arbitrary
                else:
                     b = math.sqrt(abs(E / (1.5 * curvB))) * mathutils.sign(E*curvB)
             elif is_zero(curvA):
-                assert abs(D) < 1.0e-10
+                if abs(D) >= 1.0e-10:
+                    return None # parallel lines cannot be connected without curvature
                 a = arbitrary
                 if curvB is inf_curvature:
                     b = small
                 elif is_zero(curvB):
-                    assert abs(E) < 1.0e-10
+                    if abs(E) >= 1.0e-10:
+                        return None # parallel lines cannot be connected without curvature
                     b = arbitrary
                 else:
                     b = math.sqrt(abs(E / (1.5 * curvB))) * mathutils.sign(E*curvB)
@@ -138,7 +141,8 @@ def controldists_from_endgeometry_pt(A, B, tangA, tangB, curvA, curvB, allownega
                 if curvB is inf_curvature:
                     b = small
                 elif is_zero(curvB):
-                    assert abs(E) < 1.0e-10
+                    if abs(E) >= 1.0e-10:
+                        return None # parallel lines cannot be connected without curvature
                     b = arbitrary
                 else:
                     b = math.sqrt(abs(E / (1.5 * curvB))) * mathutils.sign(E*curvB)
@@ -241,6 +245,8 @@ def controldists_from_endgeometry_pt(A, B, tangA, tangB, curvA, curvB, allownega
 
     # try if one of the prefactors is exactly zero
     testsols = test_divisions(T, D, E, AB, curvA, curvB, debug)
+    if testsols is None:
+        return []
     if testsols:
         return testsols
 
-- 
2.43.0


From 1ca447ac6a12b0cfbb5069b8ec11014c6b788cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 097/185] fix: control distances not solving the equations were
 returned

---
 pyx/deformer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index ddbbe4a..c3f0803 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -278,6 +278,15 @@ def controldists_from_endgeometry_pt(A, B, tangA, tangB, curvA, curvB, allownega
             i, b = findnearest((D - 1.5*curvA*a*abs(a))/T, candidates_b)
             solutions.append((a, b))
 
+    # the counterpart of a candidate might be missing (when it has the wrong
+    # sign), and thus we need to skip pairs, which do not solve the equations
+    def solves(a, b):
+        terms_a = 1.5*curvA*a*abs(a), b*T, -D
+        terms_b = 1.5*curvB*b*abs(b), a*T, -E
+        return all(abs(sum(terms)) < 1.0e-3 * max([abs(term) for term in terms])
+                   for terms in (terms_a, terms_b))
+    solutions = [solution for solution in solutions if solves(*solution)] or solutions
+
     # try if there is an approximate solution
     for thr in [1.0e-2, 1.0e-1]:
         if not solutions:
-- 
2.43.0


From 116d81a6217bc8c148afe20aabe89552678e6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 098/185] fix: smoothed used excessive control distances for
 nearly parallel tangents

---
 pyx/deformer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/deformer.py b/pyx/deformer.py
index c3f0803..8c5fd16 100644
--- a/pyx/deformer.py
+++ b/pyx/deformer.py
@@ -685,8 +685,12 @@ class cornersmoothed(baseclasses.deformer): # <<<
                         # use a fallback
                         t, s = intersection(p1, p2, t1, t2)
                         if t is not None and s is not None:
-                            a = 0.65 * abs(t)
-                            d = 0.65 * abs(s)
+                            # the intersection might be very far away
+                            corner = thisnormsubpathitem.atend_pt()
+                            maxdist = (math.hypot(p1[0] - corner[0], p1[1] - corner[1]) +
+                                       math.hypot(p2[0] - corner[0], p2[1] - corner[1]))
+                            a = min(0.65 * abs(t), maxdist)
+                            d = min(0.65 * abs(s), maxdist)
                         else:
                             # if there is no useful result:
                             # take an arbitrary smoothing curve that does not obey
-- 
2.43.0


From 1ec3287dfc811c51c3e0e3e79f273cd3ecde9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 099/185] fix: metapost paths with a smoothknot next to a line
 failed with a TypeError

---
 pyx/metapost/path.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index 30a71c6..c71e988 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -227,6 +227,14 @@ class line(_link):
             left_knot.set_left_given(angle)
             right_knot.rtype = mp_given
             right_knot.set_right_given(angle)
+        else:
+            # smooth knots become rough
+            if left_knot.ltype == mp_open:
+                left_knot.ltype = mp_curl
+                left_knot.set_left_curl(1)
+            if right_knot.rtype == mp_open:
+                right_knot.rtype = mp_curl
+                right_knot.set_right_curl(1)
 
 
 class controlcurve_pt(_link):
-- 
2.43.0


From ed9e6f15fcff07730755ac0c6bb7846d4a616f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 100/185] fix: metapost line with keepangles overwrote
 endpoints and explicit control points

---
 pyx/metapost/path.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index c71e988..25744cf 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -221,12 +221,15 @@ class line(_link):
         right_knot.ltype = mp_endpoint
         left_knot.rx_pt, left_knot.ry_pt = None, None
         right_knot.lx_pt, right_knot.ly_pt = None, None
+        # endpoints and explicit control points on the other sides are kept
         if self.keepangles:
             angle = atan2(right_knot.y_pt-left_knot.y_pt, right_knot.x_pt-left_knot.x_pt)
-            left_knot.ltype = mp_given
-            left_knot.set_left_given(angle)
-            right_knot.rtype = mp_given
-            right_knot.set_right_given(angle)
+            if left_knot.ltype > mp_explicit:
+                left_knot.ltype = mp_given
+                left_knot.set_left_given(angle)
+            if right_knot.rtype > mp_explicit:
+                right_knot.rtype = mp_given
+                right_knot.set_right_given(angle)
         else:
             # smooth knots become rough
             if left_knot.ltype == mp_open:
-- 
2.43.0


From e8f7d1f4d2e99d38282d699cfc8ad7b1345b0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 101/185] fix: closed metapost paths containing lines were not
 closed

---
 pyx/metapost/path.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index 25744cf..68b19d3 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -313,15 +313,11 @@ class path(pathmodule.path):
         """elems should contain metapost knots or links"""
         if epsilon is None:
             epsilon = _epsilon
-        knots = []
-        is_closed = True
+        knots = [elem for elem in elems if isinstance(elem, _knot)]
+        is_closed = all(knot.ltype != mp_endpoint and knot.rtype != mp_endpoint for knot in knots)
         for i, elem in enumerate(elems):
             if isinstance(elem, _link):
                 elem.set_knots(elems[i-1], elems[(i+1)%len(elems)])
-            elif isinstance(elem, _knot):
-                knots.append(elem)
-                if elem.ltype == mp_endpoint or elem.rtype == mp_endpoint:
-                    is_closed = False
 
         # link the knots among each other
         for i in range(len(knots)):
@@ -356,12 +352,11 @@ class path(pathmodule.path):
                 prev = elem
 
         # close the path if necessary
-        if knots[0].ltype == mp_explicit:
+        if is_closed:
             elem = knots[0]
-            if do_lineto and is_closed:
+            if do_lineto:
                 self.append(pathmodule.closepath())
             elif do_curveto:
                 self.append(pathmodule.curveto_pt(prev.rx_pt, prev.ry_pt, elem.lx_pt, elem.ly_pt, elem.x_pt, elem.y_pt))
-                if is_closed:
-                    self.append(pathmodule.closepath())
+                self.append(pathmodule.closepath())
 
-- 
2.43.0


From 334b14460d6a711d400792bba88d32cec14b3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 102/185] fix: building a metapost path modified the knots,
 which thus could not be used again

---
 pyx/metapost/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/metapost/path.py b/pyx/metapost/path.py
index 68b19d3..7eb9499 100644
--- a/pyx/metapost/path.py
+++ b/pyx/metapost/path.py
@@ -18,6 +18,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
+import copy
 from math import atan2, radians
 from pyx import unit, attr, normpath
 from pyx import path as pathmodule
@@ -313,6 +314,8 @@ class path(pathmodule.path):
         """elems should contain metapost knots or links"""
         if epsilon is None:
             epsilon = _epsilon
+        # the knots are modified in the following
+        elems = [copy.copy(elem) for elem in elems]
         knots = [elem for elem in elems if isinstance(elem, _knot)]
         is_closed = all(knot.ltype != mp_endpoint and knot.rtype != mp_endpoint for knot in knots)
         for i, elem in enumerate(elems):
-- 
2.43.0


From 9e74584e9b6f18e6de13c0e57249328d5c40625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 103/185] fix: connectors shorter than the first of the
 boxdists failed with an IndexError

---
 pyx/connector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/connector.py b/pyx/connector.py
index 3ff0faa..e73b5f0 100644
--- a/pyx/connector.py
+++ b/pyx/connector.py
@@ -58,7 +58,8 @@ class connector_pt(normpath.normpath):
             pass
         else:
             sp = self.intersect(cutpath)[0]
-            self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
+            if sp:
+                self.normsubpaths = self.split(sp[-1:])[1].normsubpaths
 
         # cut off the end of self
         center = self.atend_pt()
-- 
2.43.0


From 0c0af0b95a503ec125bbfe49b802dd15ddde64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 104/185] fix: twolines failed with a math domain error for
 rectangular triangles due to rounding

---
 pyx/connector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyx/connector.py b/pyx/connector.py
index e73b5f0..ef58bc9 100644
--- a/pyx/connector.py
+++ b/pyx/connector.py
@@ -318,7 +318,11 @@ class twolines_pt(connector_pt):
     def _missinglength(self, lenA, lenB, angleA):
         # calculate lenC, where side A and angleA are opposite
         tmp1 = lenB * cos(angleA)
-        tmp2 = sqrt(tmp1**2 - lenB**2 + lenA**2)
+        tmp2 = tmp1**2 - lenB**2 + lenA**2
+        if abs(tmp2) < 1e-10 * lenA**2:
+            # rectangular triangle up to rounding errors
+            tmp2 = 0
+        tmp2 = sqrt(tmp2)
         if tmp1 > tmp2: return tmp1 - tmp2
         return tmp1 + tmp2
 
-- 
2.43.0


From 76d94707dcd119e457003b3810f94e5a8aedcd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 105/185] fix: errorbarattrs=None of the errorbar style failed

---
 pyx/graph/style.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 1e4a308..aa6aa8a 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -747,7 +747,10 @@ class errorbar(_style):
 
     def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         privatedata.errorsize_pt = unit.topt(attr.selectattr(self.size, selectindex, selecttotal))
-        privatedata.errorbarattrs = attr.selectattrs(self.defaulterrorbarattrs + self.errorbarattrs, selectindex, selecttotal)
+        if self.errorbarattrs is not None:
+            privatedata.errorbarattrs = attr.selectattrs(self.defaulterrorbarattrs + self.errorbarattrs, selectindex, selecttotal)
+        else:
+            privatedata.errorbarattrs = None
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         if privatedata.errorbarattrs is not None:
-- 
2.43.0


From 2eb2cb5e13f3690792ac5f469ed328b8fcf679af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 106/185] fix: xvtickpoint and zvtickpoint_pt of graphs were
 other methods

---
 pyx/graph/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index c337591..8997b67 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -382,7 +382,7 @@ class graphxy(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -849,7 +849,7 @@ class graphxyz(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -870,7 +870,7 @@ class graphxyz(graph):
             self.zgridpath = self.axes["z"].gridpath
             self.ztickpoint_pt = self.axes["z"].tickpoint_pt
             self.ztickpoint = self.axes["z"].tickpoint
-            self.zvtickpoint_pt = self.axes["z"].vtickpoint
+            self.zvtickpoint_pt = self.axes["z"].vtickpoint_pt
             self.zvtickpoint = self.axes["z"].vtickpoint
             self.ztickdirection = self.axes["z"].tickdirection
             self.zvtickdirection = self.axes["z"].vtickdirection
-- 
2.43.0


From c00bbbede6664332b35c777efe0a766dbc88bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 107/185] fix: vtickpoint of axes failed

---
 pyx/graph/axis/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 8ca661e..2af04cf 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -641,7 +641,8 @@ class anchoredaxis:
         return self.positioner.vtickpoint_pt(v)
 
     def vtickpoint(self, v):
-        return self.positioner.vtickpoint_pt(v) * unit.t_pt
+        x_pt, y_pt = self.positioner.vtickpoint_pt(v)
+        return x_pt * unit.t_pt, y_pt * unit.t_pt
 
     def tickpoint_pt(self, x):
         self.docreate()
-- 
2.43.0


From 1dff326a7a873e8d9b7df42345abae65ae09beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 108/185] fix: impulses and histogram failed for columns named
 by the usenames of the pos style

---
 pyx/graph/style.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index aa6aa8a..f8603bf 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -171,7 +171,7 @@ class _keygraphstyle(_style):
 
 class pos(_style):
 
-    providesdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames"]
+    providesdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames", "posaxisnames"]
 
     def __init__(self, usenames={}, epsilon=1e-10):
         self.usenames = usenames
@@ -203,6 +203,7 @@ class pos(_style):
         # usenames).
         sharedata.poscolumnnames = privatedata.poscolumnnames
         sharedata.vposmissing = privatedata.vposmissing
+        sharedata.posaxisnames = privatedata.axisnames
         dataaxisnames.update(privatedata.axisnames)
         return [columnname for columnname in privatedata.poscolumnnames if columnname is not None]
 
@@ -668,7 +669,7 @@ class line(_line):
 
 class impulses(_styleneedingpointpos):
 
-    needsdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames"]
+    needsdata = ["vpos", "vposmissing", "vposavailable", "vposvalid", "poscolumnnames", "posaxisnames"]
 
     defaultlineattrs = [line.changelinestyle]
     defaultfrompathattrs = []
@@ -694,12 +695,12 @@ class impulses(_styleneedingpointpos):
                 pass
             else:
                 if i == self.valueaxisindex:
-                    graph.axes[sharedata.poscolumnnames[i]].adjustaxis([self.fromvalue])
+                    graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([self.fromvalue])
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         privatedata.impulsescanvas = canvas.canvas()
         if self.fromvalue is not None:
-            valueaxisname = sharedata.poscolumnnames[self.valueaxisindex]
+            valueaxisname = sharedata.posaxisnames[sharedata.poscolumnnames[self.valueaxisindex]]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
             privatedata.vfromvaluecut = 0
             if privatedata.vfromvalue < 0:
@@ -985,7 +986,7 @@ class rect(_keygraphstyle):
 
 class histogram(_style):
 
-    needsdata = ["vpos", "vposmissing", "vrange", "vrangeminmissing", "vrangemaxmissing"]
+    needsdata = ["vpos", "vposmissing", "poscolumnnames", "posaxisnames", "vrange", "vrangeminmissing", "vrangemaxmissing"]
 
     defaultlineattrs = [deco.stroked]
     defaultfrompathattrs = []
@@ -1029,9 +1030,9 @@ class histogram(_style):
                 delta = data[1] - data[0]
                 min = data[0] - self.autohistogrampointpos * delta
                 max = data[-1] + (1-self.autohistogrampointpos) * delta
-                graph.axes[columnname].adjustaxis([min, max])
+                graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([min, max])
         elif self.fromvalue is not None and columnname == sharedata.poscolumnnames[1-privatedata.rangeaxisindex]:
-            graph.axes[columnname].adjustaxis([self.fromvalue])
+            graph.axes[sharedata.posaxisnames[columnname]].adjustaxis([self.fromvalue])
 
     def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         privatedata.insertfrompath = selectindex == 0
@@ -1254,7 +1255,7 @@ class histogram(_style):
         privatedata.vcurrentpoint = None
         privatedata.count = 0
         if self.fromvalue is not None:
-            valueaxisname = sharedata.poscolumnnames[1-privatedata.rangeaxisindex]
+            valueaxisname = sharedata.posaxisnames[sharedata.poscolumnnames[1-privatedata.rangeaxisindex]]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
             privatedata.vfromvaluecut = 0
             if privatedata.vfromvalue < 0:
-- 
2.43.0


From 61c396f76e753278f938d3b084f180678f37f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 109/185] fix: errorbars on reversed axes were not cut properly
 at the graph boundary

---
 pyx/graph/style.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index f8603bf..a20d854 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -778,17 +778,21 @@ class errorbar(_style):
                         mincap = 1
                     else:
                         mincap = 0
-                    if vminpos[i] > 1+self.epsilon:
-                        continue
-                    if vminpos[i] < -self.epsilon:
-                        vminpos[i] = 0
-                        mincap = 0
                     vmaxpos = sharedata.vpos[:]
                     if sharedata.vrange[i][1] is not None:
                         vmaxpos[i] = sharedata.vrange[i][1]
                         maxcap = 1
                     else:
                         maxcap = 0
+                    if vminpos[i] > vmaxpos[i]:
+                        # reversed axes
+                        vminpos, vmaxpos = vmaxpos, vminpos
+                        mincap, maxcap = maxcap, mincap
+                    if vminpos[i] > 1+self.epsilon:
+                        continue
+                    if vminpos[i] < -self.epsilon:
+                        vminpos[i] = 0
+                        mincap = 0
                     if vmaxpos[i] < -self.epsilon:
                         continue
                     if vmaxpos[i] > 1+self.epsilon:
-- 
2.43.0


From 6bffc12e8b93dc9254e0230f8ddcc0b3e530cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 110/185] fix: rectangles exceeding the graph at both sides or
 on reversed axes were not cut properly

---
 pyx/graph/style.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index a20d854..52b5094 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -968,17 +968,21 @@ class rect(_keygraphstyle):
         xvmax = sharedata.vrange[0][1]
         yvmin = sharedata.vrange[1][0]
         yvmax = sharedata.vrange[1][1]
-        if (xvmin is not None and xvmin < 1 and
-            xvmax is not None and xvmax > 0 and
-            yvmin is not None and yvmin < 1 and
-            yvmax is not None and yvmax > 0):
+        if xvmin is None or xvmax is None or yvmin is None or yvmax is None:
+            return
+        if xvmin > xvmax:
+            # reversed axis
+            xvmin, xvmax = xvmax, xvmin
+        if yvmin > yvmax:
+            yvmin, yvmax = yvmax, yvmin
+        if xvmin < 1 and xvmax > 0 and yvmin < 1 and yvmax > 0:
             if xvmin < 0:
                 xvmin = 0
-            elif xvmax > 1:
+            if xvmax > 1:
                 xvmax = 1
             if yvmin < 0:
                 yvmin = 0
-            elif yvmax > 1:
+            if yvmax > 1:
                 yvmax = 1
             p = graph.vgeodesic(xvmin, yvmin, xvmax, yvmin)
             p.append(graph.vgeodesic_el(xvmax, yvmin, xvmax, yvmax))
-- 
2.43.0


From feb6524c6758f45c1debb70189f84545abd3dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 111/185] fix: the rect style ignored its colorname

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 52b5094..0de8d75 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -989,7 +989,7 @@ class rect(_keygraphstyle):
             p.append(graph.vgeodesic_el(xvmax, yvmax, xvmin, yvmax))
             p.append(graph.vgeodesic_el(xvmin, yvmax, xvmin, yvmin))
             p.append(path.closepath())
-            privatedata.rectcanvas.fill(p, [self.color(privatedata, point["color"])])
+            privatedata.rectcanvas.fill(p, [self.color(privatedata, point[self.colorname])])
 
 
 class histogram(_style):
-- 
2.43.0


From 38ea486a7d370d2022da7fe9aaf25620d7ae702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 112/185] fix: fillable histograms failed with fromvalue=None

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 0de8d75..1fad048 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1262,10 +1262,10 @@ class histogram(_style):
         privatedata.lastvvalue = privatedata.lastvmax = None
         privatedata.vcurrentpoint = None
         privatedata.count = 0
+        privatedata.vfromvaluecut = 0
         if self.fromvalue is not None:
             valueaxisname = sharedata.posaxisnames[sharedata.poscolumnnames[1-privatedata.rangeaxisindex]]
             privatedata.vfromvalue = graph.axes[valueaxisname].convert(self.fromvalue)
-            privatedata.vfromvaluecut = 0
             if privatedata.vfromvalue < 0:
                 privatedata.vfromvalue = 0
                 privatedata.vfromvaluecut = -1
-- 
2.43.0


From d7c1a74dca0c8c6bceaa9bae2ae6435b7068d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 113/185] fix: points without a position changed the color of
 another point (or failed) in density and surface

---
 pyx/graph/style.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 1fad048..a93c7d7 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1766,7 +1766,7 @@ class surface(_keygraphstyle):
         privatedata.colors = {}
 
     def drawpoint(self, privatedata, sharedata, graph, point):
-        if privatedata.colorize:
+        if privatedata.colorize and sharedata.vposavailable:
             privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
 
     def donedrawpoints(self, privatedata, sharedata, graph):
@@ -1937,7 +1937,8 @@ class density(_keygraphstyle):
         privatedata.vfixed = [None]*len(graph.axesnames)
 
     def drawpoint(self, privatedata, sharedata, graph, point):
-        privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
+        if sharedata.vposavailable:
+            privatedata.colors.setdefault(sharedata.value1, {})[sharedata.value2] = point[self.colorname]
         if len(privatedata.vfixed) > 2 and sharedata.vposavailable:
             for i, (v1, v2) in enumerate(list(zip(privatedata.vfixed, sharedata.vpos))):
                 if i != sharedata.index1 and i != sharedata.index2:
-- 
2.43.0


From e2b095a135c975e009ae034e4673b0a749291a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 114/185] fix: ticks of 3d graphs with xy12axesat did not lie
 in the plane of the axes

---
 pyx/graph/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 8997b67..ccd4f35 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -1028,7 +1028,7 @@ class graphxyz(graph):
             xy12axesatv = 0
         if axisname == "x":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vx: self.vpos_pt(vx, self.xorder, xy12axesatv),
-                                                                            lambda vx: self.vtickdirection(vx, self.xorder, 0, vx, 1-self.xorder, xy12axesatv),
+                                                                            lambda vx: self.vtickdirection(vx, self.xorder, xy12axesatv, vx, 1-self.xorder, xy12axesatv),
                                                                             self.xvgridpath))
             if self.xorder:
                 self.axes[axisname].hidden = not self.py1show and not self.pz0show
@@ -1036,7 +1036,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.py0show and not self.pz0show
         elif axisname == "x2":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vx: self.vpos_pt(vx, 1-self.xorder, xy12axesatv),
-                                                                            lambda vx: self.vtickdirection(vx, 1-self.xorder, 0, vx, self.xorder, xy12axesatv),
+                                                                            lambda vx: self.vtickdirection(vx, 1-self.xorder, xy12axesatv, vx, self.xorder, xy12axesatv),
                                                                             self.xvgridpath))
             if self.xorder:
                 self.axes[axisname].hidden = not self.py0show and not self.pz0show
@@ -1060,7 +1060,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.py1show and not self.pz1show
         elif axisname == "y":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vy: self.vpos_pt(self.yorder, vy, xy12axesatv),
-                                                                            lambda vy: self.vtickdirection(self.yorder, vy, 0, 1-self.yorder, vy, xy12axesatv),
+                                                                            lambda vy: self.vtickdirection(self.yorder, vy, xy12axesatv, 1-self.yorder, vy, xy12axesatv),
                                                                             self.yvgridpath))
             if self.yorder:
                 self.axes[axisname].hidden = not self.px1show and not self.pz0show
@@ -1068,7 +1068,7 @@ class graphxyz(graph):
                 self.axes[axisname].hidden = not self.px0show and not self.pz0show
         elif axisname == "y2":
             self.axes[axisname].setpositioner(positioner.flexlineaxispos_pt(lambda vy: self.vpos_pt(1-self.yorder, vy, xy12axesatv),
-                                                                            lambda vy: self.vtickdirection(1-self.yorder, vy, 0, self.yorder, vy, xy12axesatv),
+                                                                            lambda vy: self.vtickdirection(1-self.yorder, vy, xy12axesatv, self.yorder, vy, xy12axesatv),
                                                                             self.yvgridpath))
             if self.yorder:
                 self.axes[axisname].hidden = not self.px0show and not self.pz0show
-- 
2.43.0


From 120d04f8080aeeffe15c15c7f3f9c01553ad07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 115/185] fix: caps of errorbars in 3d graphs ignored the scale
 of the dimensions and were too long

---
 pyx/graph/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index ccd4f35..1d0e4ce 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -946,11 +946,11 @@ class graphxyz(graph):
         """returns an error cap path for a given coordinate, lengths and
         point in graph coordinates"""
         if coordinate == 0:
-            return self.vgeodesic(vx-0.5*length_pt/self.size_pt, vy, vz, vx+0.5*length_pt/self.size_pt, vy, vz)
+            return self.vgeodesic(vx-0.25*length_pt/self.size_pt/self.xscale, vy, vz, vx+0.25*length_pt/self.size_pt/self.xscale, vy, vz)
         elif coordinate == 1:
-            return self.vgeodesic(vx, vy-0.5*length_pt/self.size_pt, vz, vx, vy+0.5*length_pt/self.size_pt, vz)
+            return self.vgeodesic(vx, vy-0.25*length_pt/self.size_pt/self.yscale, vz, vx, vy+0.25*length_pt/self.size_pt/self.yscale, vz)
         elif coordinate == 2:
-            return self.vgeodesic(vx, vy, vz-0.5*length_pt/self.size_pt, vx, vy, vz+0.5*length_pt/self.size_pt)
+            return self.vgeodesic(vx, vy, vz-0.25*length_pt/self.size_pt/self.zscale, vx, vy, vz+0.25*length_pt/self.size_pt/self.zscale)
         else:
             raise ValueError("direction invalid")
 
-- 
2.43.0


From 0ea8e7d81faeabe9123e6219e06a19f06a29e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 116/185] fix: surface style with gridcolor failed with an
 IndexError in 2d graphs

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index a93c7d7..d035175 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1830,7 +1830,7 @@ class surface(_keygraphstyle):
                 def shrink(index, v1, v2, by):
                     v1 = v1[:]
                     v2 = v2[:]
-                    for i in builtinrange(3):
+                    for i in builtinrange(len(v1)):
                         if i != index:
                             v1[i], v2[i] = v1[i] + by*(v2[i]-v1[i]), v2[i] + by*(v1[i]-v2[i])
                     return v1, v2
-- 
2.43.0


From fe583fc78795f0a5db6ea69c11e2e5caaa3625ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 117/185] fix: axis painter failed when the changeable label
 attributes turn off a label level

---
 pyx/graph/axis/painter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/painter.py b/pyx/graph/axis/painter.py
index f675595..02ede45 100644
--- a/pyx/graph/axis/painter.py
+++ b/pyx/graph/axis/painter.py
@@ -188,6 +188,7 @@ class regular(_title):
 
         # create & align t.temp_labelbox
         for t in data.ticks:
+            t.temp_labelbox = None
             if t.labellevel is not None:
                 labelattrs = attr.selectattrs(self.labelattrs, t.labellevel, maxlabellevel)
                 if labelattrs is not None:
@@ -207,11 +208,11 @@ class regular(_title):
         if equaldirection and ((not data.ticks[0].temp_dx and self.labelvequalize) or
                                (not data.ticks[0].temp_dy and self.labelhequalize)):
             if self.labelattrs is not None:
-                box.linealignequal_pt([t.temp_labelbox for t in data.ticks if t.labellevel is not None],
+                box.linealignequal_pt([t.temp_labelbox for t in data.ticks if t.temp_labelbox is not None],
                                       labeldist_pt, -data.ticks[0].temp_dx, -data.ticks[0].temp_dy)
         else:
             for t in data.ticks:
-                if t.labellevel is not None and self.labelattrs is not None:
+                if t.temp_labelbox is not None:
                     t.temp_labelbox.linealign_pt(labeldist_pt, -t.temp_dx, -t.temp_dy)
 
         for t in data.ticks:
@@ -242,7 +243,7 @@ class regular(_title):
                     gridpath = axispos.vgridpath(t.temp_v)
                     if gridpath is not None:
                         canvas.layer("grid").stroke(gridpath, gridattrs)
-            if t.labellevel is not None and self.labelattrs is not None:
+            if t.temp_labelbox is not None:
                 canvas.layer("labels").insert(t.temp_labelbox)
                 canvas.labels.append(t.temp_labelbox)
                 extent_pt = t.temp_labelbox.extent_pt(t.temp_dx, t.temp_dy) + labeldist_pt
-- 
2.43.0


From 398d502579fb838ccdedc3430993cecf0e084d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 118/185] fix: labels of straight path axes were not aligned
 equally due to rounding of the tick direction

---
 pyx/graph/axis/painter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/axis/painter.py b/pyx/graph/axis/painter.py
index 02ede45..e06a921 100644
--- a/pyx/graph/axis/painter.py
+++ b/pyx/graph/axis/painter.py
@@ -205,8 +205,8 @@ class regular(_title):
                     equaldirection = 0
         else:
             equaldirection = 0
-        if equaldirection and ((not data.ticks[0].temp_dx and self.labelvequalize) or
-                               (not data.ticks[0].temp_dy and self.labelhequalize)):
+        if equaldirection and ((abs(data.ticks[0].temp_dx) < 1e-10 and self.labelvequalize) or
+                               (abs(data.ticks[0].temp_dy) < 1e-10 and self.labelhequalize)):
             if self.labelattrs is not None:
                 box.linealignequal_pt([t.temp_labelbox for t in data.ticks if t.temp_labelbox is not None],
                                       labeldist_pt, -data.ticks[0].temp_dx, -data.ticks[0].temp_dy)
@@ -339,8 +339,8 @@ class bar(_title):
                     equaldirection = 0
         else:
             equaldirection = 0
-        if equaldirection and ((not namepos[0][3] and self.namevequalize) or
-                               (not namepos[0][4] and self.namehequalize)):
+        if equaldirection and ((abs(namepos[0][3]) < 1e-10 and self.namevequalize) or
+                               (abs(namepos[0][4]) < 1e-10 and self.namehequalize)):
             box.linealignequal_pt(nameboxes, labeldist_pt, -namepos[0][3], -namepos[0][4])
         else:
             for namebox, np in zip(nameboxes, namepos):
-- 
2.43.0


From 14e555bfe27f2b4b94bb873b573b3be1af427aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 119/185] fix: grid of vertical graphx failed and gridpath
 methods of flipped graphs were wrong

---
 pyx/graph/graph.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 1d0e4ce..9f61ca0 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -410,16 +410,16 @@ class graphxy(graph):
 
         self.axespositioners = dict(x=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt,
                                                                 self.xpos_pt + self.width_pt, self.ypos_pt,
-                                                                (0, 1), self.xvgridpath),
+                                                                (0, 1), self._verticalgridpath),
                                     x2=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt + self.height_pt,
                                                                  self.xpos_pt + self.width_pt, self.ypos_pt + self.height_pt,
-                                                                 (0, -1), self.xvgridpath),
+                                                                 (0, -1), self._verticalgridpath),
                                     y=positioner.lineaxispos_pt(self.xpos_pt, self.ypos_pt,
                                                                 self.xpos_pt, self.ypos_pt + self.height_pt,
-                                                                (1, 0), self.yvgridpath),
+                                                                (1, 0), self._horizontalgridpath),
                                     y2=positioner.lineaxispos_pt(self.xpos_pt + self.width_pt, self.ypos_pt,
                                                                  self.xpos_pt + self.width_pt, self.ypos_pt + self.height_pt,
-                                                                 (-1, 0), self.yvgridpath))
+                                                                 (-1, 0), self._horizontalgridpath))
         if self.flipped:
             self.axespositioners = dict(x=self.axespositioners["y2"],
                                         y2=self.axespositioners["x2"],
@@ -505,13 +505,23 @@ class graphxy(graph):
         else:
             raise ValueError("direction invalid")
 
+    def _verticalgridpath(self, v):
+        return path.line_pt(self.xpos_pt + v*self.width_pt, self.ypos_pt,
+                            self.xpos_pt + v*self.width_pt, self.ypos_pt + self.height_pt)
+
+    def _horizontalgridpath(self, v):
+        return path.line_pt(self.xpos_pt, self.ypos_pt + v*self.height_pt,
+                            self.xpos_pt + self.width_pt, self.ypos_pt + v*self.height_pt)
+
     def xvgridpath(self, vx):
-        return path.line_pt(self.xpos_pt + vx*self.width_pt, self.ypos_pt,
-                            self.xpos_pt + vx*self.width_pt, self.ypos_pt + self.height_pt)
+        if self.flipped:
+            return self._horizontalgridpath(vx)
+        return self._verticalgridpath(vx)
 
     def yvgridpath(self, vy):
-        return path.line_pt(self.xpos_pt, self.ypos_pt + vy*self.height_pt,
-                            self.xpos_pt + self.width_pt, self.ypos_pt + vy*self.height_pt)
+        if self.flipped:
+            return self._verticalgridpath(vy)
+        return self._horizontalgridpath(vy)
 
     def autokeygraphattrs(self):
         return dict(direction="vertical", length=self.height)
@@ -572,12 +582,12 @@ class graphxy(graph):
                 y_pt = self.axes[dependsonaxisname].positioner.y1_pt - sign * (self.axes[dependsonaxisname].canvas.extent_pt + self.axesdist_pt)
                 self.axes[axisname].setpositioner(positioner.lineaxispos_pt(self.xpos_pt, y_pt,
                                                                             self.xpos_pt + self.width_pt, y_pt,
-                                                                            (0, sign), self.xvgridpath))
+                                                                            (0, sign), self._verticalgridpath))
             else:
                 x_pt = self.axes[dependsonaxisname].positioner.x1_pt - sign * (self.axes[dependsonaxisname].canvas.extent_pt + self.axesdist_pt)
                 self.axes[axisname].setpositioner(positioner.lineaxispos_pt(x_pt, self.ypos_pt,
                                                                             x_pt, self.ypos_pt + self.height_pt,
-                                                                            (sign, 0), self.yvgridpath))
+                                                                            (sign, 0), self._horizontalgridpath))
 
     def dolayout(self):
         if self.did(self.dolayout):
-- 
2.43.0


From b255ab23280ceb27ad444208eb093d4f45912cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 120/185] fix: grid lines of axes moved by xaxisat and yaxisat
 were moved too

---
 pyx/graph/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 9f61ca0..845fde4 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -559,7 +559,8 @@ class graphxy(graph):
             t = trafo.translate_pt(0, self.ypos_pt + v*self.height_pt - axis.positioner.y1_pt)
         c = canvas.canvas()
         for layer, subcanvas in sorted(axis.canvas.layers.items()):
-            c.layer(layer).insert(subcanvas, [t])
+            # the grid is independent of the axis position
+            c.layer(layer).insert(subcanvas, [t] if layer != "grid" else [])
         assert len(axis.canvas.layers) == len(axis.canvas.items), str(axis.canvas.items)
         axis.canvas = c
 
-- 
2.43.0


From a94b44003a95d9cc8288dbb3b3d77e6bb8309148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 121/185] fix: automatic key graphs failed with an
 AttributeError when the axis besides was moved by xaxisat

---
 pyx/graph/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 845fde4..63bbb0f 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -562,6 +562,7 @@ class graphxy(graph):
             # the grid is independent of the axis position
             c.layer(layer).insert(subcanvas, [t] if layer != "grid" else [])
         assert len(axis.canvas.layers) == len(axis.canvas.items), str(axis.canvas.items)
+        c.extent_pt = axis.canvas.extent_pt
         axis.canvas = c
 
     def doaxispositioner(self, axisname):
-- 
2.43.0


From 6b8f1ac7f7188a0e48d74c7082b0d0426dfe6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 122/185] fix: key graphs did not reach the last colour of the
 gradient

---
 pyx/graph/style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index d035175..0602c19 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -2096,7 +2096,7 @@ class gradient(_style):
                 "/DeviceCMYK": "CMYK"}[self.gradient.getcolor(0).colorspacestring()]
         data = io.BytesIO()
         for i in builtinrange(self.resolution):
-            c = self.gradient.getcolor(i*1.0/self.resolution)
+            c = self.gradient.getcolor(i*1.0/(self.resolution-1))
             data.write(c.to8bitbytes())
         i = bitmap.image(self.resolution, 1, mode, data.getvalue())
 
-- 
2.43.0


From c417f2ba5a6708eb1fe0114f7e0f7734917dd70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 123/185] fix: automatic key graphs of 3d graphs failed with a
 ValueError when no axis is painted

---
 pyx/graph/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 63bbb0f..1ae679e 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -1024,8 +1024,12 @@ class graphxyz(graph):
 
     def autokeygraphtrafo(self, keygraph):
         self.doaxes()
-        x_pt = self.layer("axes").bbox().right_pt() + self.axesdist_pt
-        y_pt = 0.5*(self.layer("axes").bbox().top_pt() + self.layer("axes").bbox().bottom_pt() - self.size_pt)
+        axesbbox = self.layer("axes").bbox()
+        if not axesbbox:
+            # no axis has been painted
+            return trafo.translate_pt(self.xpos_pt + self.size_pt + self.axesdist_pt, self.ypos_pt)
+        x_pt = axesbbox.right_pt() + self.axesdist_pt
+        y_pt = 0.5*(axesbbox.top_pt() + axesbbox.bottom_pt() - self.size_pt)
         return trafo.translate_pt(x_pt, y_pt)
 
     def doaxispositioner(self, axisname):
-- 
2.43.0


From e87b89817dd651e5ca17e118ac17dc32506ef54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 124/185] fix: text engines keep working after a failed text:
 skip its page in the dvi file

---
 pyx/text.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index d9c27b5..9312735 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1019,8 +1019,9 @@ class SingleEngine:
         self.executeid = 0
         self.page = 0
 
-        self.needdvitextboxes = [] # when texipc-mode off
+        self.needdvitextboxes = [] # pages and textboxes when texipc-mode off
         self.dvifile = None
+        self.dvipage = 0 # number of pages read from the dvifile
 
     def _cleanup(self):
         """Clean-up TeX interpreter and tmp directory.
@@ -1146,6 +1147,18 @@ class SingleEngine:
         if oldstate == newstate == STATE_TYPESET:
             return extent_pt
 
+    def _skipdvipages(self, page):
+        """Skip pages of failed typeset calls up to (including) page."""
+        while self.dvipage < page:
+            self.dvifile.readpage()
+            self.dvipage += 1
+
+    def _readdvipage(self, page, box):
+        """Read the page of box from the dvifile."""
+        self._skipdvipages(page - 1)
+        box.readdvipage(self.dvifile, page)
+        self.dvipage = page
+
     def do_start(self):
         """Setup environment and start TeX interpreter."""
         assert self.state == STATE_START
@@ -1241,10 +1254,11 @@ class SingleEngine:
         if self.needdvitextboxes:
             dvifilename = os.path.join(self.tmpdir, "texput.dvi")
             self.dvifile = dvifile.DVIfile(dvifilename, debug=self.dvitype)
-            page = 1
-            for box in self.needdvitextboxes:
-                box.readdvipage(self.dvifile, page)
-                page += 1
+            self.dvipage = 0
+            for page, box in self.needdvitextboxes:
+                self._readdvipage(page, box)
+        if self.dvifile is not None:
+            self._skipdvipages(self.page)
         if self.dvifile is not None and self.dvifile.readpage(None) is not None:
             raise ValueError("end of dvifile expected but further pages follow")
         if cleanup:
@@ -1301,9 +1315,8 @@ class SingleEngine:
             expr = expr.tex
         for ta in textattrs[::-1]:
             expr = ta.apply(expr)
-        first = self.state < STATE_TYPESET
         left_pt, right_pt, height_pt, depth_pt = self.do_typeset(expr, self.texmessages_run_default + self.texmessages_run + texmessages)
-        if self.texipc and first:
+        if self.texipc and self.dvifile is None:
             self.dvifile = dvifile.DVIfile(os.path.join(self.tmpdir, "texput.dvi"), debug=self.dvitype)
         box = textextbox_pt(x_pt, y_pt, left_pt, right_pt, height_pt, depth_pt, self.do_finish, fontmap, singlecharmode, fillstyles)
         for t in trafos:
@@ -1311,9 +1324,9 @@ class SingleEngine:
                                 #       this is quite different from what we do elsewhere!!!
                                 #       see https://sourceforge.net/mailarchive/forum.php?thread_id=9137692&forum_id=23700
         if self.texipc:
-            box.readdvipage(self.dvifile, self.page)
+            self._readdvipage(self.page, box)
         else:
-            self.needdvitextboxes.append(box)
+            self.needdvitextboxes.append((self.page, box))
         return box
 
     def text(self, x, y, *args, **kwargs):
-- 
2.43.0


From 85695c1a2196014b6820f6f8ab53974c37023f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 125/185] fix: a font size applies to vertical shifts
 independent of the order of the text attributes

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 9312735..95c102f 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -588,7 +588,7 @@ class size(attr.sortbeforeattr, textattr):
     def __init__(self, sizeindex=None, sizename=None, sizelist=defaultsizelist):
         if (sizeindex is None and sizename is None) or (sizeindex is not None and sizename is not None):
             raise ValueError("either specify sizeindex or sizename")
-        attr.sortbeforeattr.__init__(self, [_mathmode, _vshift])
+        attr.sortbeforeattr.__init__(self, [_vshift, valign, parbox_pt, _localattr])
         if sizeindex is not None:
             if sizeindex >= 0 and sizeindex < sizelist.index(None):
                 self.size = sizelist[sizeindex]
-- 
2.43.0


From 6e2533f5e05a4fbd0a159cf4ff43bc8d8f206802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 126/185] fix: the text path of TeX texts containing rules,
 colors and transformations

---
 pyx/text.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 95c102f..c8becad 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -885,10 +885,17 @@ class textextbox_pt(textbox_pt):
         return self.texttrafo.apply(*self.dvicanvas.markers[name])
 
     def textpath(self):
-        textpath = path.path()
-        for item in self.dvicanvas.items:
-            textpath += item.textpath()
-        return textpath.transformed(self.texttrafo)
+        def itempath(item):
+            if isinstance(item, canvas.canvas):
+                result = path.path()
+                for subitem in item.items:
+                    result += itempath(subitem)
+                return result.transformed(item.trafo)
+            elif isinstance(item, deco.decoratedpath):
+                return item.path
+            else:
+                return item.textpath()
+        return itempath(self.dvicanvas)
 
     def processPS(self, file, writer, context, registry, bbox):
         abbox = bboxmodule.empty()
-- 
2.43.0


From 376c67d7e806985b511f8073f092950d2e7771d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 127/185] fix: segments of a closed normsubpath: take into
 account skipped lines when joining the last and the first segment

---
 pyx/normpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/normpath.py b/pyx/normpath.py
index 2a043b5..69dbeda 100644
--- a/pyx/normpath.py
+++ b/pyx/normpath.py
@@ -1391,9 +1391,9 @@ class normsubpath:
             # join last and first segment together if the normsubpath was
             # originally closed and first and the last parameters are the
             # beginning and end points of the normsubpath
-            if ( ( params[0] == 0 and params[-1] == len(self.normsubpathitems) ) or
-                 ( params[-1] == 0 and params[0] == len(self.normsubpathitems) ) ):
-                result[-1].normsubpathitems.extend(result[0].normsubpathitems)
+            if len(result) > 1 and ( ( params[0] == 0 and params[-1] == len(self.normsubpathitems) ) or
+                                     ( params[-1] == 0 and params[0] == len(self.normsubpathitems) ) ):
+                result[-1].join(result[0])
                 result = result[-1:] + result[1:-1]
 
         return result
-- 
2.43.0


From 6645072ce20998ed233f4c4edce4ab3cec505f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 128/185] fix: order of the components of the FontMatrix of a
 Type 1 font

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index d2bbfb1..32b1401 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -663,7 +663,7 @@ class T1File:
 
         self.name, = self.fontnamepattern.search(self.data1).groups()
         m11, m12, m21, m22, v1, v2 = list(map(float, self.fontmatrixpattern.search(self.data1).groups()[:6]))
-        self.fontmatrix = trafo.trafo_pt(matrix=((m11, m12), (m21, m22)), vector=(v1, v2))
+        self.fontmatrix = trafo.trafo_pt(matrix=((m11, m21), (m12, m22)), vector=(v1, v2))
 
     def _eexecdecode(self, code):
         """eexec decoding of code"""
-- 
2.43.0


From 3e99c20b81073621b5c6b705cbb36cc23de731ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 129/185] fix: accented characters (seac): position of the
 accent and width of the composite

---
 pyx/font/t1file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 32b1401..04add28 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -183,9 +183,14 @@ class _T1seac(T1cmd):
         achar = context.t1stack.pop(0)
         aglyph = adobestandardencoding[achar]
         bglyph = adobestandardencoding[bchar]
+        # the accent is positioned with respect to the left sidebearing point of
+        # the composite character, which also determines the width; the base
+        # character and the accent reset both (by their hsbw commands)
+        sbx, wx, wy = context.x, context.wx, context.wy
         context.t1font.updateglyphpath(bglyph, path, atrafo, context)
-        atrafo = atrafo * trafo.translate_pt(adx-sab, ady)
+        atrafo = atrafo * trafo.translate_pt(sbx+adx-sab, ady)
         context.t1font.updateglyphpath(aglyph, path, atrafo, context)
+        context.wx, context.wy = wx, wy
 
     def gathercalls(self, seacglyphs, subrs, context):
         achar = context.t1stack.pop()
-- 
2.43.0


From a2617196613a89c2da4d7dc2be5305acb25e3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 130/185] fix: div in Type 1 charstrings is not an integer
 division

---
 pyx/font/t1file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 04add28..58505b6 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -512,12 +512,12 @@ class _T1div(T1cmd):
     def updatepath(self, path, trafo, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        context.t1stack.append(num1/num2)
 
     def gathercalls(self, seacglyphs, subrs, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        context.t1stack.append(num1/num2)
 
 T1div = _T1div()
 
-- 
2.43.0


From 219e1493aa5dcc024af6277d662a892a9dae8228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 131/185] fix: read fonts in PFA format

---
 pyx/font/t1file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 58505b6..f9af0b3 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1168,13 +1168,13 @@ class T1File:
     def from_PFA_bytes(cls, bytes):
         """create a T1File instance from a string of bytes corresponding to a PFA file"""
         try:
-            m1 = bytes.index("eexec") + 6
-            m2 = bytes.index("0"*40)
+            m1 = bytes.index(b"eexec") + 6
+            m2 = bytes.index(b"0"*40)
         except ValueError:
            raise FontFormatError
 
         data1 = bytes[:m1].decode("ascii", errors="surrogateescape")
-        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(" ", "").replace("\r", "").replace("\n", ""))
+        data2eexec = binascii.a2b_hex(bytes[m1: m2].translate(None, b" \t\r\n"))
         data3 = bytes[m2:].decode("ascii", errors="surrogateescape")
         return cls(data1, data2eexec, data3)
 
-- 
2.43.0


From efe285a80725f4433855f971bbe635f8d415c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 132/185] fix: write fonts in PFB format

---
 pyx/font/t1file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index f9af0b3..957dfbf 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1121,17 +1121,17 @@ class T1File:
             l, x1 = divmod(l, 256)
             l, x2 = divmod(l, 256)
             x4, x3 = divmod(l, 256)
-            return chr(x1) + chr(x2) + chr(x3) + chr(x4)
-        file.write("\200\1")
-        file.write(pfblength(self.data1))
+            return bytes((x1, x2, x3, x4))
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data1))
         file.write(self.data1)
-        file.write("\200\2")
-        file.write(pfblength(data2eexec))
-        file.write(data2eexec)
-        file.write("\200\1")
-        file.write(pfblength(self.data3))
+        file.write_bytes(b"\200\2")
+        file.write_bytes(pfblength(data2eexec))
+        file.write_bytes(data2eexec)
+        file.write_bytes(b"\200\1")
+        file.write_bytes(pfblength(self.data3))
         file.write(self.data3)
-        file.write("\200\3")
+        file.write_bytes(b"\200\3")
 
     def outputPS(self, file, writer):
         """output the PostScript code for the T1File to the file file"""
-- 
2.43.0


From b1c6989ad06aaec72234345692bc7e3917e9302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 133/185] fix: skip comments when tokenizing bytes

---
 pyx/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index 3718d07..f87dc4f 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -135,7 +135,7 @@ class PStokenizer:
         while self.data[self.pos] in self.tokenseps:
             self.pos += 1
         # ignore comments including subsequent whitespace characters
-        while self.data[self.pos] == self.commentchar:
+        while self.data[self.pos] in self.commentchar:
             while self.data[self.pos] not in self.newlinechars:
                 self.pos += 1
             while self.data[self.pos] in self.tokenseps:
-- 
2.43.0


From 859c0d25636c6e6f935443a3ed539d7c12840f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 134/185] fix: sign of the smallest number in a Type 1
 charstring

---
 pyx/font/t1file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 957dfbf..bb676d2 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -814,7 +814,7 @@ class T1File:
                 cmds.append(-((x - 251)*256) - code.pop(0) - 108)
             else: # x = 255, i.e. full size ints
                 y = ((code.pop(0)*256+code.pop(0))*256+code.pop(0))*256+code.pop(0)
-                if y > (1 << 31):
+                if y >= (1 << 31):
                     cmds.append(y - (1 << 32))
                 else:
                     cmds.append(y)
-- 
2.43.0


From 8fdff373c77777ac568e40247abf5a7c33186d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 135/185] fix: Type 1 fonts without subroutines

---
 pyx/font/t1file.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index bb676d2..bfe9e5b 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -733,12 +733,16 @@ class T1File:
 
         self.emptysubr = self._charstringencode(b"\x0b") # 11, i.e. return
 
-        # extract Subrs
-        c = reader.PSbytes_tokenizer(self._data2, b"/Subrs")
-        self.subrsstart = c.pos
-        arraycount = c.getint()
-        token = c.gettoken(); assert token == b"array"
+        # extract Subrs (which are optional)
         self.subrs = []
+        if b"/Subrs" in self._data2:
+            c = reader.PSbytes_tokenizer(self._data2, b"/Subrs")
+            self.subrsstart = c.pos
+            arraycount = c.getint()
+            token = c.gettoken(); assert token == b"array"
+        else:
+            self.subrsstart = None
+            arraycount = 0
         for i in range(arraycount):
             token = c.gettoken(); assert token == b"dup"
             token = c.getint(); assert token == i
@@ -755,7 +759,8 @@ class T1File:
                 self.subrnptoken = token
             else:
                 assert token == self.subrnptoken
-        self.subrsend = c.pos
+        if self.subrsstart is not None:
+            self.subrsend = c.pos
 
         # hasflexhintsubrs is a boolean indicating that the font uses flex or
         # hint replacement subrs as specified by Adobe (tm). When it does, the
@@ -982,7 +987,11 @@ class T1File:
                     w.write_bytes(b"\n")
             w.write("end\n")
 
-        if self.subrsstart < self.charstringsstart:
+        if self.subrsstart is None:
+            w.write_bytes(self._data2[:self.charstringsstart])
+            addcharstrings(glyphs)
+            w.write_bytes(self._data2[self.charstringsend:])
+        elif self.subrsstart < self.charstringsstart:
             w.write_bytes(self._data2[:self.subrsstart])
             addsubrs(subrs)
             w.write_bytes(self._data2[self.subrsend:self.charstringsstart])
-- 
2.43.0


From 21cc8ab80ac8c1ad29f21ff8e004e607d26fafdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 136/185] fix: Type 1 fonts with an encoding array without any
 entry

---
 pyx/font/t1file.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index bfe9e5b..288bb81 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -696,10 +696,11 @@ class T1File:
         else:
             self.encoding = [None]*256
             while True:
-                self.encodingstart = c.pos
-                if c.gettoken() == "dup":
+                self.encodingstart = self.encodingend = c.pos
+                token = c.gettoken()
+                if token in ("dup", "readonly", "def"):
                     break
-            while True:
+            while token == "dup":
                 i = c.getint()
                 glyph = c.gettoken()
                 if 0 <= i < 256:
@@ -707,9 +708,7 @@ class T1File:
                 token = c.gettoken(); assert token == "put"
                 self.encodingend = c.pos
                 token = c.gettoken()
-                if token == "readonly" or token == "def":
-                    break
-                assert token == "dup"
+                assert token in ("dup", "readonly", "def")
 
     lenIVpattern = re.compile(rb"/lenIV\s+(\d+)\s+def\s+")
     flexhintsubrs = [[3, 0, T1callothersubr, T1pop, T1pop, T1setcurrentpoint, T1return],
-- 
2.43.0


From 10e2d6be488f4f5a0cb41e20de25828863550e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 137/185] fix: Type 1 fonts with noaccess def after the
 charstrings

---
 pyx/font/t1file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 288bb81..56c7b8c 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -792,10 +792,13 @@ class T1File:
                 token = c.gettoken(); assert token == self.glyphrdtoken
             self.glyphlist.append(chartoken[1:])
             self.glyphs[chartoken[1:]] = c.getbytes(size)
+            token = c.gettoken()
+            if token == b"noaccess":
+                token = token + b" " + c.gettoken()
             if first:
-                self.glyphndtoken = c.gettoken()
+                self.glyphndtoken = token
             else:
-                token = c.gettoken(); assert token == self.glyphndtoken
+                assert token == self.glyphndtoken
             first = False
         self.charstringsend = c.pos
         assert not self.subrs or self.subrrdtoken == self.glyphrdtoken
-- 
2.43.0


From 2d66c376d015bb689690e25f8b937adc236bd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 138/185] fix: strip a font for a text without any glyph

---
 pyx/font/t1file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 56c7b8c..d1d990f 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -940,6 +940,9 @@ class T1File:
         glyphs is a dict containing those glyph names as keys,
         which are to be contained in the charstringsstring to be created.
         If glyphs is None, all glyphs in self.glyphs will be used."""
+        if not self._data2:
+            self._data2decode()
+
         w = writer.writer(io.BytesIO())
 
         def addsubrs(subrs):
-- 
2.43.0


From dc8c884f3e87e715631de1dbe0fe2405d834c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 139/185] fix: glyph paths of slanted fonts (needed to output
 slanted text as path)

---
 pyx/font/t1file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index d1d990f..b0aceec 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -911,13 +911,15 @@ class T1File:
     def gatherglyphcalls(self, glyph, seacglyphs, subrs, context):
         self.gathercalls(self.getglyphcmds(glyph), seacglyphs, subrs, context)
 
-    def getglyphpath_pt(self, x_pt, y_pt, glyph, size_pt, convertcharcode=False, flex=True):
+    def getglyphpath_pt(self, x_pt, y_pt, glyph, size_pt, convertcharcode=False, flex=True, slant=None):
         """return an object containing the PyX path, wx_pt and wy_pt for glyph named glyph"""
         if convertcharcode:
             if not self.encoding:
                 self._encoding()
             glyph = self.encoding[glyph]
         t = self.fontmatrix.scaled(size_pt)
+        if slant:
+            t = trafo.trafo_pt(matrix=((1, slant), (0, 1))) * t
         tpath = t.translated_pt(x_pt, y_pt)
         context = T1context(self, flex=flex)
         p = path()
-- 
2.43.0


From 173bd67f8fda9499497faf39ecab22292a04ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 140/185] fix: slanted text as path

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index b3a1b3e..e485a2a 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -528,7 +528,7 @@ class T1text_pt(text_pt):
                 else:
                     if i:
                         x_pt += self.spaced_pt
-                    glyphpath = self.font.t1file.getglyphpath_pt(x_pt, y_pt, value, self.size_pt, convertcharcode=not self.decode)
+                    glyphpath = self.font.t1file.getglyphpath_pt(x_pt, y_pt, value, self.size_pt, convertcharcode=not self.decode, slant=self.slant)
                     self._textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
-- 
2.43.0


From a79fdaaec06436656f405ae82525e5946f836dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 141/185] fix: output and position of slanted text in SVG

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index e485a2a..d904c40 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -731,7 +731,7 @@ class T1text_pt(text_pt):
             if context.fillopacity:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
-                trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
+                trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)).processSVGattrs(attrs, writer, context, registry)
             xml.startSVGElement("text", attrs)
             tspan = False
             for i, value in enumerate(data):
-- 
2.43.0


From ef9b66ae572b1a7a8d6bfb1b8c0ca19c0fc68da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 142/185] fix: SVG output: xml prefix in attribute names (to
 preserve spaces in text)

---
 pyx/svgwriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 3b1d665..8403643 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -25,6 +25,7 @@ from . import bbox, config, style, version, unit, trafo
 logger = logging.getLogger("pyx")
 
 svg_uri = "http://www.w3.org/2000/svg"
+xml_uri = "http://www.w3.org/XML/1998/namespace"
 xlink_uri = "http://www.w3.org/1999/xlink"
 
 class SVGregistry:
@@ -97,6 +98,8 @@ class SVGGenerator(xml.sax.saxutils.XMLGenerator):
             name = split[0]
         else:
             short_uri, name = split
+            if short_uri == "xml":
+                return xml_uri, name
             assert short_uri == "xlink"
             if not self.xlink_enabled:
                 raise ValueError("xlink namespace found but not enabled")
-- 
2.43.0


From 0e4db2bd89c7f593d252ce7dc3f7975084ff45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 143/185] fix: SVG text: do not collapse spaces

---
 pyx/font/font.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index d904c40..1be6678 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -727,7 +727,8 @@ class T1text_pt(text_pt):
                      "y": "%f" % -self.y_pt,
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
-                     "fill": context.fillcolor}
+                     "fill": context.fillcolor,
+                     "xml:space": "preserve"}
             if context.fillopacity:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
-- 
2.43.0


From 3e1440ee41537fed03cd55f3aed36ef04c6bb317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 144/185] fix: SVG text: fully transparent text

---
 pyx/font/font.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 1be6678..4ab82fd 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -729,7 +729,7 @@ class T1text_pt(text_pt):
                      "font-family": fontname,
                      "fill": context.fillcolor,
                      "xml:space": "preserve"}
-            if context.fillopacity:
+            if context.fillopacity != 1:
                 attrs["opacity"] = "%f" % context.fillopacity
             if self.slant:
                 trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)).processSVGattrs(attrs, writer, context, registry)
-- 
2.43.0


From 39e9ca8fe95f1f6aae014d892207c587704f6338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 145/185] fix: AFM files with a MetricsSets entry

---
 pyx/font/afmfile.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index c4821b3..3c9b9f4 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1032,8 +1032,6 @@ class AFMfile(metric.metric):
             return _READ_MAIN, None
         elif key == "MetricsSets":
             self.metricssets = _parseint(args)
-            if direction is not None:
-                raise AFMError("MetricsSets not allowed after first (implicit) StartDirection")
         elif key == "FontName":
             self.fontname = _parsestr(args)
         elif key == "FullName":
-- 
2.43.0


From b8222612e0efe9a36b20a55e4f58a02b9bbe2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 146/185] fix: AFM files: store the composites

---
 pyx/font/afmfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 3c9b9f4..ebfd14d 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1334,6 +1334,7 @@ class AFMfile(metric.metric):
                 raise AFMError("Unknown key '%s' in composite character data section" % key)
         if len(parts) != no:
             raise AFMError("Wrong number of composite characters")
+        self.composites.append(AFMcomposite(name, parts))
         return _READ_COMPOSITES, i+1
 
     def parse(self, f):
-- 
2.43.0


From ba0cffbb8f55a375fbd9c72e3fbd3b6f0c320069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 147/185] fix: descent of a font in PDF when not given by the
 AFM file

---
 pyx/font/afmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index ebfd14d..907955e 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1434,7 +1434,7 @@ class AFMfile(metric.metric):
         if self.descender is not None:
             descent = self.descender
         elif self.fontbbox is not None:
-            descent = self.fontbbox[3]
+            descent = self.fontbbox[1]
         else:
             descent = -200 # guessed default
         file.write("/Descent %d\n" % descent)
-- 
2.43.0


From d0c664886a8593614643b194a91866ba9d1e506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 148/185] fix: AFM files: name of the CharWidth key

---
 pyx/font/afmfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 907955e..6e68c88 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1082,7 +1082,7 @@ class AFMfile(metric.metric):
             else:
                 raise AFMError("Wrong direction number %d" % direction)
         elif (key == "UnderlinePosition" or key == "UnderlineThickness" or key == "ItalicAngle" or
-              key == "Charwidth" or key == "IsFixedPitch"):
+              key == "CharWidth" or key == "IsFixedPitch"):
             # we implicitly entered a direction section, so we should process the line again
             return self._processline_direction(line, 0)
         elif key == "StartCharMetrics":
@@ -1126,7 +1126,7 @@ class AFMfile(metric.metric):
             self.underlinethicknesses[direction] = _parsefloat(args)
         elif key == "ItalicAngle":
             self.italicangles[direction] = _parsefloat(args)
-        elif key == "Charwidth":
+        elif key == "CharWidth":
             self.charwidths[direction] = _parsefloats(args, 2)
         elif key == "IsFixedPitch":
             self.isfixedpitchs[direction] = _parsebool(args)
-- 
2.43.0


From 279a03d3cac1d064efb647d93bbae2ee6b3d6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 149/185] fix: AFM files: error messages

---
 pyx/font/afmfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 6e68c88..435f19f 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -913,7 +913,7 @@ def _parsefloats(s, nos):
         if len(result) != nos:
             raise AFMError()
     except Exception:
-        raise AFMError("Expecting list of %d numbers, got '%s'" % (s, nos))
+        raise AFMError("Expecting list of %d numbers, got '%s'" % (nos, s))
     return result
 
 def _parsestr(s):
@@ -1186,7 +1186,7 @@ class AFMfile(metric.metric):
                 successor, ligature = args.split(None, 1)
                 char.ligatures.append((_parsestr(successor), ligature))
             else:
-                raise AFMError("Undefined command in character widths specification: '%s'", s)
+                raise AFMError("Undefined command in character widths specification: '%s'" % s)
         if char is None:
             raise AFMError("Character metrics not defined")
 
-- 
2.43.0


From 33765cacd7914e29cda5eb1cd7766a14c13e2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 150/185] fix: texts without any character

---
 pyx/font/font.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 4ab82fd..73f22a4 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -471,7 +471,13 @@ class T1text_pt(text_pt):
         if self.ligatures:
             self.glyphnames = self.font.metric.resolveligatures(self.glyphnames)
 
+    def empty(self):
+        """returns whether there are no characters to be shown at all"""
+        return not (self.glyphnames if self.decode else self.charcodes)
+
     def bbox(self):
+        if self.empty():
+            return bbox.empty()
         if self.font.metric is None:
             logger.warning("We are about to extract the bounding box from the path of the text. This is slow and differs from the font metric information. You should provide an afm file whenever possible.")
             return self.textpath().bbox()
@@ -535,6 +541,9 @@ class T1text_pt(text_pt):
         return self._textpath
 
     def processPS(self, file, writer, context, registry, bbox):
+        if self.empty():
+            return
+
         if not self.ignorebbox:
             bbox += self.bbox()
 
@@ -600,6 +609,9 @@ class T1text_pt(text_pt):
             file.write(") show\n")
 
     def processPDF(self, file, writer, context, registry, bbox):
+        if self.empty():
+            return
+
         if not self.ignorebbox:
             bbox += self.bbox()
 
@@ -690,6 +702,9 @@ class T1text_pt(text_pt):
                 file.write(") Tj\n")
 
     def processSVG(self, xml, writer, context, registry, bbox):
+        if self.empty():
+            return
+
         if not self.ignorebbox:
             bbox += self.bbox()
 
-- 
2.43.0


From b288340efbe6203fc7dc71dabb44882e7f15cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 151/185] fix: PostScript output: keep track of the font
 selected within a canvas not modifying the graphics state

---
 pyx/canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 3bd4fb9..1e9d5ee 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -192,9 +192,9 @@ class canvas(baseclasses.canvasitem):
         return obbox
 
     def processPS(self, file, writer, context, registry, bbox):
-        context = context()
         if self.items:
             if self.modifies_state:
+                context = context()
                 file.write("gsave\n")
                 for attr in self.styles:
                     attr.processPS(file, writer, context, registry)
-- 
2.43.0


From a72eb9a57a442d412bc64fd1a06490881932a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 152/185] fix: SVG fonts: use different characters for glyph
 names and character codes

---
 pyx/font/font.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 73f22a4..c940973 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -336,7 +336,7 @@ class SVGT1mapping:
     def merge_glyphnames(self, glyphnames):
         for glyphname in glyphnames:
             if glyphname not in self.glyphnames:
-                if glyphname in _glyphnames:
+                if glyphname in _glyphnames and _glyphnames[glyphname] not in self.charcodes.values():
                     self.glyphnames[glyphname] = _glyphnames[glyphname]
                 else:
                     self.glyphnames[glyphname] = chr(self.private_glyphname)
@@ -345,7 +345,7 @@ class SVGT1mapping:
     def merge_charcodes(self, charcodes):
         for charcode in charcodes:
             if charcode not in self.charcodes:
-                if charcode in _charcodes:
+                if charcode in _charcodes and _charcodes[charcode] not in self.glyphnames.values():
                     self.charcodes[charcode] = _charcodes[charcode]
                 else:
                     self.charcodes[charcode] = chr(self.private_charcode)
-- 
2.43.0


From ca7bb2263258d4eab957a584b4224758a2c8eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 153/185] fix: glyph widths in PDF are not restricted to
 integers

---
 pyx/font/font.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index c940973..a7cd9ee 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -197,9 +197,9 @@ class PDFfont(pdfwriter.PDFobject):
                     file.write(" ")
             if i in self.charcodes:
                 if self.metric is not None:
-                    file.write("%i" % self.metric.width_ds(encoding[i]))
+                    file.write("%f" % self.metric.width_ds(encoding[i]))
                 else:
-                    file.write("%i" % self.fontdescriptor.fontfile.t1file.getglyphinfo(encoding[i])[0])
+                    file.write("%f" % self.fontdescriptor.fontfile.t1file.getglyphinfo(encoding[i])[0])
             else:
                 file.write("0")
         file.write(" ]\n")
-- 
2.43.0


From 447cc04ab74f3df897b756c43ed9132fed7633a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 154/185] fix: take into account the FontMatrix for the glyph
 widths in PDF

---
 pyx/font/t1file.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index b0aceec..f9d3b2d 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1102,11 +1102,10 @@ class T1File:
 
     def getglyphinfo(self, glyph, flex=True):
         logger.warning("We are about to extract font information for the Type 1 font '%s' from its pfb file. This is bad practice (and it's slow). You should use an afm file instead." % self.name)
-        context = T1context(self, flex=flex)
-        p = path()
-        self.updateglyphpath(glyph, p, trafo.trafo(), context)
-        bbox = p.bbox()
-        return context.wx, context.wy, bbox.llx_pt, bbox.lly_pt, bbox.urx_pt, bbox.ury_pt
+        # all values are to be given in units of 1/1000 of the font size
+        glyphpath = self.getglyphpath_pt(0, 0, glyph, 1000, flex=flex)
+        bbox = glyphpath.path.bbox()
+        return glyphpath.wx_pt, glyphpath.wy_pt, bbox.llx_pt, bbox.lly_pt, bbox.urx_pt, bbox.ury_pt
 
     def outputPFA(self, file, remove_UniqueID_lookup=False):
         """output the T1File in PFA format"""
-- 
2.43.0


From c9bb8d393c81146795caa1cc29b61f134673ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 155/185] fix: precision of the font matrix of slanted fonts in
 PostScript

---
 pyx/font/font.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index a7cd9ee..f844bdc 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -147,7 +147,10 @@ class PSchangefontmatrix(pswriter.PSresource):
     def output(self, file, writer, registry):
         file.write("%%%%BeginResource: %s\n" % self.newfontname)
         file.write("/%s /%s\n" % (self.basefontname, self.newfontname))
-        file.write(str(self.newfontmatrix))
+        # do not use a fixed number of decimals as the components are small numbers
+        file.write("[%g %g %g %g %g %g]" % (self.newfontmatrix.matrix[0][0], self.newfontmatrix.matrix[1][0],
+                                            self.newfontmatrix.matrix[0][1], self.newfontmatrix.matrix[1][1],
+                                            self.newfontmatrix.vector[0], self.newfontmatrix.vector[1]))
         file.write("\nChangeFontMatrix\n")
         file.write("%%EndResource\n")
 
-- 
2.43.0


From 89781de36efc6b5f362613ea165c39db84ebf65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:47 +0000
Subject: [PATCH 156/185] fix: accept the nop command within the pages of a dvi
 file

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ebe938e..50616a6 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -447,7 +447,7 @@ class DVIfile:
                 continue
             if cmd == _DVI_NOP:
                 pass
-            if cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
+            elif cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
                 self.putchar(cmd, True, 0, fontmap)
             elif cmd >= _DVI_SET1234 and cmd < _DVI_SET1234 + 4:
                 self.putchar(afile.readint(cmd - _DVI_SET1234 + 1), True, cmd-_DVI_SET1234+1, fontmap)
-- 
2.43.0


From afc887d53eb241f7a7e454f3b6baa4f0e36b12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:47 +0000
Subject: [PATCH 157/185] fix: do not scale the width of rules in virtual fonts
 twice

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 50616a6..b03ad64 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -154,7 +154,7 @@ class DVIfile:
             if self.debug:
                 self.debugfile.write(" h:=%d+%d=%d, hh:=???\n" %
                                      (self.pos[_POS_H], width, self.pos[_POS_H]+width))
-            self.pos[_POS_H] += width * self.scale
+            self.pos[_POS_H] += width
 
     def putchar(self, char, advancepos, id1234, fontmap):
         dx = advancepos and self.activefont.getwidth_dvi(char) or 0
-- 
2.43.0


From a487c5a9221d2abae771f8776c2b4e1740067252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:47 +0000
Subject: [PATCH 158/185] fix: reset w, x, y, and z at the beginning of the
 packets of virtual fonts

---
 pyx/dvi/dvifile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index b03ad64..5baa123 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -346,6 +346,9 @@ class DVIfile:
         self.stack = []
         self.filepos = 0
 
+        # the packets start with w, x, y, and z being zero
+        self.pos = self.pos[:_POS_W] + [0, 0, 0, 0]
+
         self.usefont(0, 0, fontmap)
 
     def _pop_dvistring(self, fontmap):
-- 
2.43.0


From 798b44b589517d8bdf44cb389e1a8b802f2c2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 159/185] fix: start the packets of virtual fonts with the font
 defined first

---
 pyx/dvi/dvifile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 5baa123..b86e594 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -349,7 +349,10 @@ class DVIfile:
         # the packets start with w, x, y, and z being zero
         self.pos = self.pos[:_POS_W] + [0, 0, 0, 0]
 
-        self.usefont(0, 0, fontmap)
+        # the packets start with the font defined first (which is not necessarily number 0)
+        for fontnum in fonts:
+            self.usefont(fontnum, 0, fontmap)
+            break
 
     def _pop_dvistring(self, fontmap):
         self.flushtext(fontmap)
-- 
2.43.0


From 9933cefd2cef739c1bfb52d7be75138c58101b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 160/185] fix: read the four byte width of long character
 packets in virtual fonts

---
 pyx/dvi/vffile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/vffile.py b/pyx/dvi/vffile.py
index 819bd40..7a46967 100644
--- a/pyx/dvi/vffile.py
+++ b/pyx/dvi/vffile.py
@@ -90,7 +90,7 @@ class vffile:
                 # character packet (long form)
                 pl = afile.readuint32()   # packet length
                 cc = afile.readuint32()   # char code (assumed unsigned, but anyhow only 0 <= cc < 255 is actually used)
-                tfm = afile.readuint24()  # character width
+                tfm = afile.readuint32()  # character width
                 dvi = afile.read(pl)      # dvi code of character
                 self.widths[cc] = tfm
                 self.chardefs[cc] = dvi
-- 
2.43.0


From e3d2076ee6956e35674bd53527d709157feb2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 161/185] fix: apply the magnification of the dvi file to the
 size of the fonts

---
 pyx/dvi/texfont.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/texfont.py b/pyx/dvi/texfont.py
index 33c148f..d0519fa 100644
--- a/pyx/dvi/texfont.py
+++ b/pyx/dvi/texfont.py
@@ -61,10 +61,9 @@ class TeXfont:
 
     def getsize_pt(self):
         """ return size of font in (PS) points """
-        # The factor 16L/16777216L=2**(-20) converts a fix_word (here self.q)
-        # to the corresponding float. Furthermore, we have to convert from TeX
-        # points to points, hence the factor 72/72.27.
-        return 72/72.27 * 16*self.q/16777216
+        # tfmconv converts a fix_word in TeX points (here self.q) to dvi units and
+        # pyxconv converts those to points (including the magnification of the dvi file)
+        return self.q*self.tfmconv*self.pyxconv
 
     def _convert_tfm_to_dvi(self, length):
         # doing the integer math with long integers will lead to different roundings
-- 
2.43.0


From 97dd42e0779dfdfda21aedf55584e129860a2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 162/185] fix: respect sign and exponent of the numbers in
 pyxcolor specials

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index b86e594..54ce17f 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -262,7 +262,7 @@ class DVIfile:
                     sd = sd.groupdict()
                     if sd["arg"][0] == "(":
                         numpat = re.compile(r"[+-]?((\d+\.\d*)|(\d*\.\d+)|(\d+))([eE][+-]\d+)?")
-                        arg = tuple([float(x[0]) for x in numpat.findall(sd["arg"])])
+                        arg = tuple([float(x.group()) for x in numpat.finditer(sd["arg"])])
                         try:
                             c = getattr(color, sd["model"])(*arg)
                         except TypeError or AttributeError:
-- 
2.43.0


From 01c84fcd0fa6da0ac1c6a9a82efe892eb4c14793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 163/185] fix: do not print additional header words of tfm
 files

---
 pyx/dvi/tfmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/tfmfile.py b/pyx/dvi/tfmfile.py
index b9829f1..4f92732 100644
--- a/pyx/dvi/tfmfile.py
+++ b/pyx/dvi/tfmfile.py
@@ -126,7 +126,7 @@ class TFMfile:
 
             if self.lh > 18:
                 # just ignore the rest
-                print(file.read((self.lh-18)*4))
+                file.read((self.lh-18)*4)
 
             #
             # read char_info
-- 
2.43.0


From 26fbd085b1c9aecae11e36f7f716158cfe2c1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 164/185] fix: ignore all messages about loading graphics
 files, not the first one only

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index c8becad..0747c30 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -332,7 +332,7 @@ class texmessage:
             while m:
                 if not os.path.isfile(config.get("text", "chroot", "") + m.group("filename")):
                     return msg
-                r, m = remove_pattern(texmessage.quoted_file_pattern, r)
+                r, m = remove_pattern(p, r)
         return r
 
     @staticmethod
-- 
2.43.0


From 860507f5507e0ba9a45fc4e7e334198c2b018e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 165/185] fix: UnicodeEngine: scale and shift the minus of a
 scaled and shifted text in math mode (e.g. in exponents)

---
 pyx/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 0747c30..1dd9ec7 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1628,8 +1628,10 @@ class unicodetextbox_pt(textbox_pt):
                     text_fragments = [text.text]
                 for i, text_fragment in enumerate(text_fragments):
                     if i:
-                        self.canvas.fill(path.rect_pt(x_pt+0.5*(self.minuswidth_pt-self.minuslength_pt), self.mathaxis_pt-0.5*self.minusthickness_pt, self.minuslength_pt, self.minusthickness_pt))
-                        x_pt += self.minuswidth_pt
+                        self.canvas.fill(path.rect_pt(x_pt+0.5*(self.minuswidth_pt-self.minuslength_pt)*text.scale,
+                                                      text.shift*self.size + (self.mathaxis_pt-0.5*self.minusthickness_pt)*text.scale,
+                                                      self.minuslength_pt*text.scale, self.minusthickness_pt*text.scale))
+                        x_pt += self.minuswidth_pt*text.scale
                     if text_fragment:
                         try:
                             t = self.font.text_pt(x_pt, text.shift*self.size, text_fragment, text.scale*self.size)
-- 
2.43.0


From a7913f84bc6c818aeee0253c8a4d5f735c53d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 166/185] fix: UnicodeEngine: the anchor of a text is the
 position on the base line, not the lower left corner of its box

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 1dd9ec7..36f4475 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1656,7 +1656,7 @@ class unicodetextbox_pt(textbox_pt):
         bbox = self.canvas.bbox()
         bbox.includepoint_pt(0, 0)
         bbox.includepoint_pt(x_pt, 0)
-        box.rect_pt.__init__(self, bbox.llx_pt, bbox.lly_pt, bbox.urx_pt-bbox.llx_pt, bbox.ury_pt-bbox.lly_pt, abscenter_pt = (0, 0))
+        box.rect_pt.__init__(self, bbox.llx_pt, bbox.lly_pt, bbox.urx_pt-bbox.llx_pt, bbox.ury_pt-bbox.lly_pt, abscenter_pt = (-bbox.llx_pt, -bbox.lly_pt))
         box.rect.transform(self, self.texttrafo)
 
     def _extract_minus_properties(self):
-- 
2.43.0


From 48b2f27a1cd8925c4ed4fcced6a57c6d92c16d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 167/185] fix: UnicodeEngine: the bounding box is the box of
 the text including its reference point and advance

---
 pyx/text.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 36f4475..4305fa6 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1695,9 +1695,6 @@ class unicodetextbox_pt(textbox_pt):
         for trafo in trafos:
             self.texttrafo = trafo * self.texttrafo
 
-    def bbox(self):
-        return self.canvas.bbox().transformed(self.texttrafo)
-
     def textpath(self):
         r = path.path()
         for item in self.canvas.items:
@@ -1713,17 +1710,23 @@ class unicodetextbox_pt(textbox_pt):
     def processPS(self, file, writer, context, registry, bbox):
         c = canvas.canvas([self.texttrafo])
         c.insert(self.canvas)
-        c.processPS(file, writer, context, registry, bbox)
+        abbox = bboxmodule.empty()
+        c.processPS(file, writer, context, registry, abbox)
+        bbox += box.rect.bbox(self)
 
     def processPDF(self, file, writer, context, registry, bbox):
         c = canvas.canvas([self.texttrafo])
         c.insert(self.canvas)
-        c.processPDF(file, writer, context, registry, bbox)
+        abbox = bboxmodule.empty()
+        c.processPDF(file, writer, context, registry, abbox)
+        bbox += box.rect.bbox(self)
 
     def processSVG(self, xml, writer, context, registry, bbox):
         c = canvas.canvas([self.texttrafo])
         c.insert(self.canvas)
-        c.processSVG(xml, writer, context, registry, bbox)
+        abbox = bboxmodule.empty()
+        c.processSVG(xml, writer, context, registry, abbox)
+        bbox += box.rect.bbox(self)
 
 
 class FontMetricType:
-- 
2.43.0


From 72287860c7f585a4d5c81c3cff1bf04f29caf977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 168/185] fix: every page of a PDF document shows its own
 annotations only

---
 pyx/pdfextra.py  | 6 +++---
 pyx/pdfwriter.py | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index b4be419..ef88c27 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -210,7 +210,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
         # append this formfield to the global document form
         # and to the annotation list of the page:
         registry.add(pdfwriter.PDFform([self]))
-        registry.add(pdfwriter.PDFannotations([self]))
+        registry.add(pdfwriter.PDFannotations([self], registry))
 
         self.name = name
         self.bb_pt = bb_pt
@@ -495,7 +495,7 @@ class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
         # we treat this as an annotation only, since the parent is
         # already in the form field
 
-        registry.add(pdfwriter.PDFannotations([self]))
+        registry.add(pdfwriter.PDFannotations([self], registry))
 
         self.bb_pt = (pos_pt[0], pos_pt[1], pos_pt[0] + size_pt, pos_pt[1] + size_pt)
         self.name = name
@@ -656,7 +656,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         # append this formfield to the global document form
         # and to the annotation list of the page:
         registry.add(pdfwriter.PDFform([self]))
-        registry.add(pdfwriter.PDFannotations([self]))
+        registry.add(pdfwriter.PDFannotations([self], registry))
 
         self.name = name
         self.bb_pt = bb_pt
diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 843c812..3cbe0b4 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -211,8 +211,9 @@ class PDFinfo(PDFobject):
 
 class PDFannotations(PDFobject):
 
-    def __init__(self, annots):
-        PDFobject.__init__(self, "annotations", _id="annotations")
+    def __init__(self, annots, pageregistry):
+        # each page has its own annotations
+        PDFobject.__init__(self, "annotations", _id=id(pageregistry))
         self.annots = annots
 
     def merge(self, other):
@@ -301,7 +302,7 @@ class PDFpage(PDFobject):
         if self.page.rotated:
             file.write("/Rotate 90\n")
 
-        pdfannotations = PDFannotations([])
+        pdfannotations = PDFannotations([], self.pageregistry)
         if pdfannotations in registry:
             file.write("/Annots %i 0 R\n" % registry.getrefno(pdfannotations))
         file.write("/Contents %i 0 R\n" % registry.getrefno(self.pdfcontent))
-- 
2.43.0


From 41f059ffd957c18c9ffa608ceaba98db96742224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 169/185] fix: fill styles of a canvas do not apply to form
 fields outside of the canvas

---
 pyx/canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 1e9d5ee..9fe8823 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -222,7 +222,7 @@ class canvas(baseclasses.canvasitem):
                 file.write("q\n") # gsave
                 for attr in self.styles:
                     if isinstance(attr, style.fillstyle):
-                        context.fillstyles.append(attr)
+                        context.fillstyles = context.fillstyles + [attr]
                     attr.processPDF(file, writer, context, registry)
                 if self.clip is not None:
                     self.clip.processPDF(file, writer, context, registry)
-- 
2.43.0


From 0b95fa453207e31b6bc38ca912638b0fb07080dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 170/185] fix: names and values of PDF form fields may contain
 any characters

---
 pyx/pdfextra.py  | 30 +++++++++++++++---------------
 pyx/pdfwriter.py | 28 +++++++++++++++-------------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index ef88c27..2187b16 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -264,11 +264,11 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
             file.write("/AP <</N %d 0 R >>\n" % registry.getrefno(self.defaulttext)) # appearance dictionary
         ### the dictionary entries for the form field
         file.write("/FT /Tx\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
-        file.write("/V (%s)\n" % self.defaultvalue) # starting value
-        file.write("/DV (%s)\n" % self.defaultvalue) # reset value
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
+        file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
+        file.write("/DV (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # reset value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR ")
@@ -314,9 +314,9 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
     def write(self, file, awriter, registry):
         contentfile = writer.writer(io.BytesIO())
-        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self.texts[0]))
+        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, pdfwriter.pdfstring(self.texts[0])))
         for text in self.texts[1:]:
-            contentfile.write(" (%s)'" % (text))
+            contentfile.write(" (%s)'" % pdfwriter.pdfstring(text))
         contentfile.write(" ET Q EMC\n")
 
         content = contentfile.file.getvalue()
@@ -479,9 +479,9 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         ### the dictionary entries for the form field
         file.write("/FT /Btn\n") # type of the form field
         file.write("/Kids [%s]\n" % " ".join(["%d 0 R" % registry.getrefno(x) for x in self.checkboxes]))
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
         file.write("/V /%s\n" % self.defaultvalue)
         file.write(">>\n")
@@ -686,11 +686,11 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         #ile.write("/AP <</N  >>\n") # appearance dictionary TODO
         ### the dictionary entries for the form field
         file.write("/FT /Ch\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T (%s)\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         if self.defaultvalue in self.values:
-            file.write("/V (%s)\n" % self.defaultvalue) # starting value
+            file.write("/V (%s)\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR <</Font <</%s %d 0 R >> >>\n" % (self.font.name, registry.getrefno(self.font))) # default resources for appearance
@@ -698,7 +698,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         file.write("/Q %d\n" % self.alignflag)
         file.write("/Opt [")
         for value in self.values:
-            file.write(" (%s)" % value)
+            file.write(" (%s)" % pdfwriter.pdfstring(value))
         file.write(" ]\n")
         file.write(">>\n")
 # >>>
diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 3cbe0b4..f3d51d7 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -162,6 +162,21 @@ class PDFcatalog(PDFobject):
         file.write(">>\n")
 
 
+def pdfstring(s):
+    """return the content of a PDF text string"""
+    if all(32 <= ord(c) <= 126 or 161 <= ord(c) <= 255 and ord(c) != 173 for c in s):
+        codes = [ord(c) for c in s] # identical in PDFDocEncoding
+    else:
+        codes = b"\xfe\xff" + s.encode("utf-16-be")
+    r = ""
+    for code in codes:
+        if 32 <= code <= 126 and chr(code) not in "()[]<>\\":
+            r += chr(code)
+        else:
+            r += "\\%03o" % code
+    return r
+
+
 class PDFinfo(PDFobject):
 
     def __init__(self):
@@ -181,19 +196,6 @@ class PDFinfo(PDFobject):
             else:
                 timezone = "Z00'00'"
 
-        def pdfstring(s):
-            if all(32 <= ord(c) <= 126 or 161 <= ord(c) <= 255 and ord(c) != 173 for c in s):
-                codes = [ord(c) for c in s] # identical in PDFDocEncoding
-            else:
-                codes = b"\xfe\xff" + s.encode("utf-16-be")
-            r = ""
-            for code in codes:
-                if 32 <= code <= 126 and chr(code) not in "()[]<>\\":
-                    r += chr(code)
-                else:
-                    r += "\\%03o" % code
-            return r
-
         file.write("<<\n")
         if writer.title:
             file.write("/Title (%s)\n" % pdfstring(writer.title))
-- 
2.43.0


From bae30ec3a5b5b48f8273be69e6d88afedaeee7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 171/185] fix: PDF radio buttons may have any values and no
 default

---
 pyx/pdfextra.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 2187b16..50bb82e 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -118,11 +118,14 @@ def _topt(value, type="u", un="cm"): # <<<
     else:
         return unit.topt(unit.length(value, type, un))
 # >>>
-def _simplestring(text): # <<<
+def _pdfname(text): # <<<
+    """return text as a PDF name (without the slash)"""
     result = ""
-    for x in text:
-        if x.isalnum():
-            result += x
+    for x in text.encode("utf-8"):
+        if chr(x).isalnum() and x < 128:
+            result += chr(x)
+        else:
+            result += "#%02x" % x
     return result
 # >>>
 def _sizetrafo(s, tr): # <<<
@@ -461,7 +464,7 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
 
         self.checkboxes = []
         for i, pos_pt, value in zip(list(range(len(values))), positions_pt, values):
-            chbox = PDFcheckboxfield(pos_pt, value, size_pt, _simplestring(value), (value == defaultvalue),
+            chbox = PDFcheckboxfield(pos_pt, value, size_pt, _pdfname(value), (value == defaultvalue),
                 self, self.onstate, self.offstate, self.annotflag, self.formflag, writer, registry)
             self.checkboxes.append(chbox)
             registry.add(chbox)
@@ -483,7 +486,8 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         file.write("/TU (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
         file.write("/TM (%s)\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
-        file.write("/V /%s\n" % self.defaultvalue)
+        if self.defaultvalue is not None:
+            file.write("/V /%s\n" % _pdfname(self.defaultvalue))
         file.write(">>\n")
 # >>>
 class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
-- 
2.43.0


From 10b5ab9eb46cc17162c323d5dd8618759b14be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 172/185] fix: text fields of PDF forms may be inserted into a
 canvas with fill styles

---
 pyx/pdfextra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 50bb82e..0e4ab7d 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -247,7 +247,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
                 cont = pdfwriter.context()
                 cont.fillattr = 1
                 cont.strokeattr = 0
-                attr.processPDF(fillstring, writer, cont, self.registry, bbox)
+                attr.processPDF(fillstring, writer, cont, self.registry)
         self.fillstyles = fillstring.getvalue()
         fillstring.close()
 
-- 
2.43.0


From 850111de5db6080b8c420c3499147d647d3772bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 173/185] fix: data files are read again when they have been
 changed

---
 pyx/graph/data.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index ab7213c..bff180e 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import math, re, configparser, struct
+import math, os, re, configparser, struct
 from pyx import text
 from . import style
 builtinlist = list
@@ -226,6 +226,12 @@ class data(_data):
             return self.orgdata.columns[value][self.columncallbackcount]
 
 
+def _filestamp(filename):
+    "identifies a file and its state"
+    stat = os.stat(filename)
+    return stat.st_dev, stat.st_ino, stat.st_mtime_ns, stat.st_size
+
+
 filecache = {}
 
 class file(data):
@@ -322,10 +328,11 @@ class file(data):
         except Exception:
             # not a file-like object -> open it
             cachekey = self.getcachekey(filename, commentpattern, stringpattern, columnpattern, skiphead, skiptail, every)
-            if cachekey not in filecache:
+            stamp = _filestamp(filename)
+            if cachekey not in filecache or filecache[cachekey][0] != stamp:
                 with open(filename) as f:
-                    filecache[cachekey] = readfile(f, filename)
-            data.__init__(self, filecache[cachekey], **kwargs)
+                    filecache[cachekey] = stamp, readfile(f, filename)
+            data.__init__(self, filecache[cachekey][1], **kwargs)
         else:
             data.__init__(self, readfile(filename, "user provided file-like object"), **kwargs)
 
@@ -382,9 +389,11 @@ class conffile(data):
             filename.readlines
         except Exception:
             # not a file-like object -> open it
-            if filename not in filecache:
-                filecache[filename] = readfile(open(filename), filename)
-            data.__init__(self, filecache[filename], **kwargs)
+            stamp = _filestamp(filename)
+            if filename not in conffilecache or conffilecache[filename][0] != stamp:
+                with open(filename) as f:
+                    conffilecache[filename] = stamp, readfile(f, filename)
+            data.__init__(self, conffilecache[filename][1], **kwargs)
         else:
             data.__init__(self, readfile(filename, "user provided file-like object"), **kwargs)
 
@@ -489,9 +498,11 @@ class cbdfile(data):
         except Exception:
             # not a file-like object -> open it
             cachekey = self.getcachekey(filename, minrank, maxrank)
-            if cachekey not in cbdfilecache:
-                cbdfilecache[cachekey] = readfile(open(filename, "rb"), filename)
-            data.__init__(self, cbdfilecache[cachekey], **kwargs)
+            stamp = _filestamp(filename)
+            if cachekey not in cbdfilecache or cbdfilecache[cachekey][0] != stamp:
+                with open(filename, "rb") as f:
+                    cbdfilecache[cachekey] = stamp, readfile(f, filename)
+            data.__init__(self, cbdfilecache[cachekey][1], **kwargs)
         else:
             data.__init__(self, readfile(filename, "user provided file-like object"), **kwargs)
 
-- 
2.43.0


From d76089ed106253dd392b647a7684f6887d7e43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 174/185] fix: data files and expressions may contain any
 characters in their name

---
 pyx/graph/data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index bff180e..0b174cf 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -150,6 +150,11 @@ class points(_data):
 class _notitle:
     pass
 
+
+def _escapetitle(s):
+    "escapes a string for a title, which may contain non-ASCII characters and white space other than blanks"
+    return "".join(text.escapestring(" " if c.isspace() else c) if c.isascii() and (c.isprintable() or c.isspace()) else c for c in s)
+
 _columnintref = re.compile(r"\$(-?\d+)", re.IGNORECASE)
 
 class data(_data):
@@ -161,9 +166,9 @@ class data(_data):
         if title is _notitle:
             items = list(columns.items())
             items.sort() # we want sorted items (otherwise they would be unpredictable scrambled)
-            self.title = "%s: %s" % (text.escapestring(data.title or "unknown source"),
-                                     ", ".join(["%s=%s" % (text.escapestring(key),
-                                                           text.escapestring(str(value)))
+            self.title = "%s: %s" % (_escapetitle(data.title or "unknown source"),
+                                     ", ".join(["%s=%s" % (_escapetitle(key),
+                                                           _escapetitle(str(value)))
                                                 for key, value in items]))
         else:
             self.title = title
-- 
2.43.0


From 62fc1f949fa506c19917f25614a092625ec3c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 175/185] fix: time axes cover their manual ticks

---
 pyx/graph/axis/timeaxis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index c8d7df9..4c64181 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -73,6 +73,11 @@ class timetick(datetime.datetime):
         result.__dict__.update(self.__dict__)
         return result
 
+    def __add__(self, other):
+        # the result is a mere point in time
+        return datetime.datetime(self.year, self.month, self.day, self.hour, self.minute, self.second,
+                                 self.microsecond, tzinfo=self.tzinfo, fold=self.fold) + other
+
     def merge(self, other):
         if self.ticklevel is None or (other.ticklevel is not None and other.ticklevel < self.ticklevel):
             self.ticklevel = other.ticklevel
-- 
2.43.0


From c09d6f9738dff528e21be5c1cecc723304a05752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 176/185] fix: time axes can be reversed

---
 pyx/graph/axis/timeaxis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index 4c64181..4912f77 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -32,8 +32,6 @@ from pyx.graph.axis import axis, rater
 class timeaxis(axis.linear):
     "time axis mapping based "
 
-    # TODO: how to deal with reversed timeaxis?
-
     def __init__(self, parter=None, rater=rater.linear(), **args):
         super().__init__(self, divisor=None, **args)
         self.parter = parter
@@ -44,6 +42,8 @@ class timeaxis(axis.linear):
         def mstimedelta(td):
             "return the timedelta in microseconds"
             return td.microseconds + 1000000*(td.seconds + 3600*24*td.days)
+        if self.reverse:
+            return mstimedelta(data.max - x) / float(mstimedelta(data.max - data.min))
         return mstimedelta(x - data.min) / float(mstimedelta(data.max - data.min))
         # we could store float(mstimedelta(self.dx)) instead of self.dx, but
         # I prefer a different solution (not based on huge integers) for the
-- 
2.43.0


From 713bc75fb0e9e0ef5389a111517faefb9fabf31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 177/185] fix: parameters of time axes may be set afterwards

---
 pyx/graph/axis/timeaxis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index 4912f77..7341fd5 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -21,6 +21,7 @@
 
 
 import datetime
+from pyx import utils
 from pyx.graph import style
 from pyx.graph.axis import axis, rater
 
@@ -33,9 +34,10 @@ class timeaxis(axis.linear):
     "time axis mapping based "
 
     def __init__(self, parter=None, rater=rater.linear(), **args):
-        super().__init__(self, divisor=None, **args)
-        self.parter = parter
-        self.rater = rater
+        super().__init__(parter=parter, rater=rater, **args)
+
+    def __call__(self, **kwargs):
+        return timeaxis(**utils.merge_members_kwargs(self, [self.kwargs, kwargs], ["parter", "rater"]))
 
     def convert(self, data, x):
         # XXX float division of timedelta instances
-- 
2.43.0


From 5cac7cf150baa389943c3e9e69afb9f4ac365606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 178/185] fix: the pykpathsea extension is found within the PyX
 package

---
 pyx/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index 44c3b0e..4b6c809 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -29,7 +29,7 @@ logger_filelocator = logging.getLogger("pyx.filelocator")
 builtinopen = open
 
 try:
-    import pykpathsea as pykpathsea_module
+    from . import pykpathsea as pykpathsea_module
     has_pykpathsea = True
 except ImportError:
     has_pykpathsea = False
-- 
2.43.0


From 3dc84cda283e39c2e12f9ff19ba13b88c0318ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 179/185] fix: pykpathsea finds nothing for formats which it
 does not know instead of failing

---
 pyx/pykpathsea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pykpathsea.c b/pyx/pykpathsea.c
index 60a48d0..6b25e11 100644
--- a/pyx/pykpathsea.c
+++ b/pyx/pykpathsea.c
@@ -73,7 +73,7 @@ static PyObject *py_kpse_find_file(PyObject *self, PyObject *args)
     /* if (!strcmp(format, "other text files")) kpse_file_format = kpse_program_text_format; else */
     /* if (!strcmp(format, "other binary files")) kpse_file_format = kpse_program_binary_format; else */
     /* if (!strcmp(format, "misc fonts")) kpse_file_format = kpse_miscfonts_format; else */
-    return NULL;
+    Py_RETURN_NONE;
 
     completefilename = kpse_find_file(filename, kpse_file_format, 1);
     returnvalue = Py_BuildValue("s", completefilename);
-- 
2.43.0


From cb1e912e04c5004aa4b454ab428bfbbb61831d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 180/185] fix: the decoder of the _t1code extension handles
 data shorter than the random prefix

---
 pyx/font/_t1code.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/font/_t1code.c b/pyx/font/_t1code.c
index eacb3fa..c0a25a6 100644
--- a/pyx/font/_t1code.c
+++ b/pyx/font/_t1code.c
@@ -54,6 +54,8 @@ static PyObject *py_decoder(PyObject *self, PyObject *args)
       }
 
       /* convert result to string stripping first n chars */
+      if (n > lcode)
+          n = lcode;
       result = PyBytes_FromStringAndSize((const char *)data + n, lcode - n);
       free(data);
       return result;
-- 
2.43.0


From df693b758a6453c1f264c7bedaaba12f1b82f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 181/185] fix: no signed integer overflow in the _t1code
 extension

---
 pyx/font/_t1code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/_t1code.c b/pyx/font/_t1code.c
index c0a25a6..8df68e5 100644
--- a/pyx/font/_t1code.c
+++ b/pyx/font/_t1code.c
@@ -16,8 +16,8 @@
 #include <stdlib.h>
 #include <stdint.h>
 
-#define C1 52845
-#define C2 22719
+#define C1 52845u
+#define C2 22719u
 
 /* 
 def decoder(code, r, n):
-- 
2.43.0


From 8a1f501f12deacb8b569647a4d82a9948eac11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 182/185] fix: the locate method of the file locator

---
 pyx/config.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 4b6c809..4678798 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -272,14 +272,15 @@ class locate:
 
     def openers(self, filename, formats):
         full_filename = None
-        for extension in extensions:
-            with Popen([self.locate, filename+extension], stdout=subprocess.PIPE).stdout as output:
-                with io.TextIOWrapper(output, encoding="ascii", errors="surrogateescape") as text_output:
-                    for line in text_output:
-                        line = line.rstrip()
-                        if os.path.basename(line) == filename+extension:
+        for name in full_filenames(filename, formats):
+            try:
+                with Popen([self.locate, name], stdout=subprocess.PIPE) as process:
+                    for line in process.stdout:
+                        line = os.fsdecode(line).rstrip("\r\n")
+                        if full_filename is None and os.path.basename(line) == name:
                             full_filename = line
-                            break
+            except OSError:
+                return []
             if full_filename:
                 break
         else:
@@ -293,7 +294,7 @@ class locate:
             except IOError:
                 logger.warning("'%s' should be available at '%s' according to the locate, "
                             "but the file is not available at this location; "
-                            "update your locate database" % (filename+extension, full_filename))
+                            "update your locate database" % (filename, full_filename))
         return [_opener]
 
 locator_classes["locate"] = locate
-- 
2.43.0


From ac76f2f133807b97b14eddc7b1b3174825a24ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 183/185] fix: the curved parts of a short brace share its
 length

---
 pyx/deco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index a01300a..f9199b0 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -1035,8 +1035,9 @@ class brace(deco, attr.attr):
         ismoothlength_pt = ilength_pt * ismooth
         osmoothlength_pt = olength_pt * osmooth
         if bardirnorm < ismoothlength_pt + osmoothlength_pt:
-            ismoothlength_pt = bardirnorm * ismoothlength_pt / (ismoothlength_pt + osmoothlength_pt)
-            osmoothlength_pt = bardirnorm * osmoothlength_pt / (ismoothlength_pt + osmoothlength_pt)
+            smoothlength_pt = ismoothlength_pt + osmoothlength_pt
+            ismoothlength_pt = bardirnorm * ismoothlength_pt / smoothlength_pt
+            osmoothlength_pt = bardirnorm * osmoothlength_pt / smoothlength_pt
         q3 = (q2[0] + ismoothlength_pt * bardir[0],
               q2[1] + ismoothlength_pt * bardir[1])
         q4 = (q5[0] - osmoothlength_pt * bardir[0],
-- 
2.43.0


From 7b74343f686ecb459767f0e5c09ab65a803a4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 184/185] fix: transparency in PostScript output does not break
 interpreters without the ghostscript extension

---
 pyx/color.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/color.py b/pyx/color.py
index 7ea28af..49e15ba 100644
--- a/pyx/color.py
+++ b/pyx/color.py
@@ -596,7 +596,8 @@ class transparency(attr.exclusiveattr, style.strokestyle, style.fillstyle):
 
     def processPS(self, file, writer, context, registry):
         logger.warning("Transparency not available in PostScript, proprietary ghostscript extension code inserted.")
-        file.write("%f .setshapealpha\n" % self.value)
+        # the extension is available in certain versions of ghostscript only
+        file.write("/.setshapealpha where {pop %f .setshapealpha} if\n" % self.value)
 
     def processPDF(self, file, writer, context, registry):
         if context.strokeattr and context.fillattr:
-- 
2.43.0


From 027ced56819aaa70b89a4ae6324ec8967ab5860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 185/185] fix: a surface without any visible element

---
 pyx/graph/style.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 0602c19..7e2c448 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1917,8 +1917,9 @@ class surface(_keygraphstyle):
                             elements.append(mesh.element((mesh.node_pt(graph.vpos_pt(*v3f), self.gridcolor),
                                                           mesh.node_pt(graph.vpos_pt(*v4), self.gridcolor),
                                                           mesh.node_pt(graph.vpos_pt(*v4f), self.gridcolor))))
-        m = mesh.mesh(elements, check=0)
-        graph.layer("filldata").insert(m)
+        if elements:
+            m = mesh.mesh(elements, check=0)
+            graph.layer("filldata").insert(m)
 
         if privatedata.colorize:
             _keygraphstyle.donedrawpoints(self, privatedata, sharedata, graph)
-- 
2.43.0


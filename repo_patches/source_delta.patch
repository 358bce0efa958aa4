From 9efa3f544772df28b9b3c6a494693fc491f936f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 01/46] fix: chord lengths of empty and integer curves

---
 skcurve/_diffgeom.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..266e775 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -86,9 +86,15 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.array([], dtype=np.float64)
+
+    data = curve.data
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    if np.issubdtype(data.dtype, np.integer):
+        # The differences and their squares may be out of the integer type range
+        data = data.astype(np.float64)
+
+    return np.sqrt(np.sum((np.diff(data, axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
@@ -237,6 +243,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.array([], dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From 9e51f7405262a24e11789f6cdee57c04af1a8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 02/46] fix: do not wrap out of bounds negative indices of
 curve points and segments

---
 skcurve/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..43393de 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -403,6 +403,8 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     def __init__(self, curve: 'Curve', index: int):
         if index < 0:
             index = curve.size + index
+        if index < 0:
+            raise IndexError('The index is out of curve size')
 
         self._curve = curve
         self._idx = index
@@ -929,7 +931,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if index < 0 or index >= (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From 89addaf591415669a82678b4eb92a506e0f8977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 03/46] fix: Curve.index with negative "start"

---
 skcurve/_base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 43393de..6f2b88e 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1381,10 +1381,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         self._check_ndim(point)
 
-        if start is None and end is None:
-            data = self._data
-        else:
-            data = self._data[slice(start, end)]
+        start, end, _ = slice(start, end).indices(self.size)
+        data = self._data[start:end]
 
         is_close = allequal(point.data, data, axis=1)
 
@@ -1393,10 +1391,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         indices = np.flatnonzero(is_close)
 
-        if start:
-            indices += start
-
-        return indices[0]
+        return indices[0] + start
 
     def count(self, point: Point) -> int:
         """Returns the number of inclusions given point in the curve
-- 
2.43.0


From 4fff9236d346c18d3a9896b47b40f7bd10dd70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 04/46] fix: keep the dimension of empty curves

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 6f2b88e..de9801e 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1144,6 +1144,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
+            if is_array and axis == 0 and curve_data.ndim == 2:
+                # The dimension of empty MxN data is known
+                ndmin = max(ndmin, curve_data.shape[1])
             data = np.reshape([], (0, ndmin)).astype(dtype)
 
         m, n = data.shape
-- 
2.43.0


From e8c9b4698550e641450f967551a99e02eb826637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 05/46] fix: shape of the gradient for empty and single-point
 curves

---
 skcurve/_diffgeom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 266e775..13127ed 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -143,7 +143,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     m_rows = data.shape[0]
 
     if m_rows == 0:
-        return np.array([], dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     for edge_order in range(edge_order, 0, -1):
         if m_rows < (edge_order + 1):
@@ -155,7 +155,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
             break
     else:
         warnings.warn('Cannot calculate a numerical gradient.', DifferentialGeometryWarning)
-        return np.zeros((m_rows, 1), dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     return np.gradient(data, axis=0, edge_order=edge_order)
 
-- 
2.43.0


From 6eebd459d13bcffffa3980caf90d6ac39e487bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 06/46] fix: remove zero-length segments that appear after
 removing NaN/Inf points

---
 skcurve/_diffgeom.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 13127ed..0b63467 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -57,11 +57,15 @@ def nonsingular(curve: 'Curve'):
 
     """
 
-    chord_lengths = curve.chordlen
-
     def is_singular(curve_data):
-        return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
+        singular = np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1)
+
+        # The zero-length segments should be found between the points which remain in the curve
+        regular = np.flatnonzero(~singular)
+        chord_lengths = chordlen(curve[regular])
+        singular[regular[1:]] = np.isclose(chord_lengths, 0.0)
+
+        return singular
 
     return curve.drop(is_singular)
 
-- 
2.43.0


From 0ec3fc6e898f90f5fc33acff60b3a56e0c834394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 07/46] fix: dropping nothing by empty indices vector

---
 skcurve/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index de9801e..dd4d79d 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -2112,6 +2112,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
             indices = np.any(indices, axis=1)
 
         if indices.dtype != np.bool:
+            if indices.size == 0:
+                indices = indices.astype(np.intp)
             return self.delete(indices)
         else:
             if self.isparametric:
-- 
2.43.0


From 71ac6c4548c34e9f69a6fbb385f30a8ce165dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 08/46] fix: collinearity of points on a line that does not
 pass through the origin

---
 skcurve/_geomalg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..83251e0 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -199,7 +199,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     -----
 
     In n-dimensional space, a set of three or more distinct points are collinear
-    if and only if, the matrix of the coordinates of these vectors is of rank 1 or less.
+    if and only if, the matrix of the coordinates of the vectors between these points is of rank 1 or less.
 
     Parameters
     ----------
@@ -225,7 +225,11 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if m.shape[1] < 3:
         return True
 
-    return np.linalg.matrix_rank(m, tol=tol) <= 1
+    if tol is None:
+        tol = np.linalg.norm(m, 2) * max(m.shape) * F_EPS
+
+    # Relative differences
+    return np.linalg.matrix_rank(m[:, 1:] - m[:, :1], tol=tol) <= 1
 
 
 def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From ee3de5c30434384b1fcdb7b2bf3cbd9427bd6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 09/46] fix: overlap of segments with negative slope

---
 skcurve/_geomalg.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 83251e0..3ee2e50 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -305,8 +305,15 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     if np.any(data_maxmin > data_minmax):
         return None
 
-    return skcurve._base.Segment(p1=skcurve._base.Point(data_maxmin),
-                                 p2=skcurve._base.Point(data_minmax))
+    # The overlap segment has the same slope as the given segments
+    direction = p12_data - p11_data
+    if not np.any(direction):
+        direction = p22_data - p21_data
+    if np.any(direction):
+        direction = direction * np.sign(direction[np.flatnonzero(direction)[0]])
+
+    return skcurve._base.Segment(p1=skcurve._base.Point(np.where(direction < 0, data_minmax, data_maxmin)),
+                                 p2=skcurve._base.Point(np.where(direction < 0, data_maxmin, data_minmax)))
 
 
 def segment_to_point(segment: 'Segment', point: 'Point') -> float:
-- 
2.43.0


From d517bb87e8e696e8b7b6d6540e49a940af220130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 10/46] fix: shortest segment for degenerate, parallel and
 small segments

---
 skcurve/_geomalg.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 3ee2e50..6a82206 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -390,7 +390,7 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
     sd = td = dd
 
     # Compute the line parameters of the two closest points
-    if dd < tol:
+    if dd <= tol * a * c:
         # the lines are almost parallel
         sn, sd = 0.0, 1.0
         tn, td = e, c
@@ -432,8 +432,14 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             sd = a
 
     # finally do the division to get sc and tc
-    t1 = 0.0 if np.abs(sn) < tol else sn / sd
-    t2 = 0.0 if np.abs(tn) < tol else tn / td
+    t1 = sn / sd if sd > 0 else 0.0
+    t2 = tn / td if td > 0 else 0.0
+
+    # refine the closest points: the lines might be almost parallel or the segments might be singular
+    if c > 0:
+        t2 = min(max((b * t1 + e) / c, 0.0), 1.0)
+    if a > 0:
+        t1 = min(max((b * t2 - d) / a, 0.0), 1.0)
 
     return t1, t2
 
@@ -506,7 +512,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn = np.zeros_like(dd)
     tn = np.zeros_like(dd)
 
-    dd_lt_tol = dd < tol
+    dd_lt_tol = dd <= tol * a * c
     not_dd_lt_tol = ~dd_lt_tol
 
     sd[dd_lt_tol] = 1.0
@@ -557,14 +563,12 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn[bmd_else] = bmd[bmd_else]
     sd[bmd_else] = a[bmd_else]
 
-    abs_sn_gt_tol = ~(np.abs(sn) < tol)
-    abs_tn_gt_tol = ~(np.abs(tn) < tol)
-
-    t1 = np.zeros_like(dd)
-    t2 = np.zeros_like(dd)
+    t1 = np.divide(sn, sd, out=np.zeros_like(dd), where=sd > 0)
+    t2 = np.divide(tn, td, out=np.zeros_like(dd), where=td > 0)
 
-    t1[abs_sn_gt_tol] = (sn / sd)[abs_sn_gt_tol]
-    t2[abs_tn_gt_tol] = (tn / td)[abs_tn_gt_tol]
+    # Refine the closest points: the lines might be almost parallel or the segments might be singular
+    t2 = np.clip(np.divide(b * t1 + e, c, out=np.zeros_like(dd), where=c > 0), 0.0, 1.0)
+    t1 = np.clip(np.divide(b * t2 - d, a, out=np.zeros_like(dd), where=a > 0), 0.0, 1.0)
 
     p1 = p11 + t1 * u
     p2 = p21 + t2 * v
-- 
2.43.0


From af8ce9065cd7441cfcf3e68fbdf74249e32f6204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 11/46] fix: shortest segment to the point for small segments

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 6a82206..0f95db0 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -338,12 +338,12 @@ def segment_to_point(segment: 'Segment', point: 'Point') -> float:
 
     c1 = to_point_direction @ segment_direction
 
-    if c1 < 0 or np.isclose(c1, 0):
+    if c1 <= 0:
         return 0.0
 
     c2 = segment_direction @ segment_direction
 
-    if c2 < c1 or np.isclose(c2, c1):
+    if c2 <= c1:
         return 1.0
 
     t = c1 / c2
-- 
2.43.0


From 7adc4662aef496bf198d8c4c79c77214423e507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 12/46] fix: checking parallel segments independently of their
 lengths

---
 skcurve/_geomalg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 0f95db0..8c7747a 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -186,9 +186,13 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
     b = u @ v
     c = v @ v
 
-    d = a * c - b * b
+    if a == 0 or c == 0:
+        return True
+
+    # Squared sine of the angle between the segments
+    r = v - u * (b / a)
 
-    return d < tol
+    return bool(r @ r <= tol * c)
 
 
 def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 5a8c3d46c84bcb0e9aeb34b43d6e68399be2396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 13/46] fix: singular and coincident segments far from the
 origin

---
 skcurve/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index dd4d79d..5001c31 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -591,7 +591,7 @@ class Segment:
             Returns True if the segment is singular (has zero lenght)
         """
 
-        return self.p1 == self.p2
+        return bool(np.isclose(self.seglen, 0.0))
 
     @property
     def seglen(self) -> Numeric:
@@ -740,14 +740,18 @@ class Segment:
 
         """
 
+        def coincide(p1: Point, p2: Point) -> bool:
+            return p1.ndim == p2.ndim and bool(np.isclose(p1.distance(p2), 0.0))
+
         points = [self.p1, self.p2]
 
         if isinstance(other, Point):
-            if other == self.p1 or other == self.p2:
+            if coincide(other, self.p1) or coincide(other, self.p2):
                 return True
             points.append(other)
         elif isinstance(other, Segment):
-            if other == self or other.reverse() == self:
+            if ((coincide(other.p1, self.p1) and coincide(other.p2, self.p2)) or
+                    (coincide(other.p1, self.p2) and coincide(other.p2, self.p1))):
                 return True
             points.extend([other.p1, other.p2])
         else:
-- 
2.43.0


From d5439a8abf5b44ace4caf0cf92d58335f41828e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 14/46] fix: t-parameter of a single non-collinear point in a
 sequence

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 8c7747a..50fa47f 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -108,12 +108,12 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
     if is_collinear.size == 0:
         return float(t)
     else:
+        if t.size == 1:
+            t = np.array(t, ndmin=1)
         if not np.all(is_collinear):
             warnings.warn(
                 "Some given points are not collinear with the segment", GeometryAlgorithmsWarning)
             t[~is_collinear] = np.nan
-        if t.size == 1:
-            t = np.array(t, ndmin=1)
         return t
 
 
-- 
2.43.0


From 37fa9d98a6220fcec2bc1f599028d362dad363fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 15/46] fix: angle between small segments

---
 skcurve/_geomalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 50fa47f..b379abb 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -142,7 +142,7 @@ def segments_angle(segment1: 'Segment', segment2: 'Segment',
 
     denominator = u1.norm() * u2.norm()
 
-    if np.isclose(denominator, 0.0):
+    if segment1.singular or segment2.singular:
         warnings.warn(
             'Cannot compute angle between segments. One or both segments degenerate into a point.',
             GeometryAlgorithmsWarning)
-- 
2.43.0


From a85545f9cef4fdf5a1833f00dd46dd5a9a3837ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 16/46] fix: creating the info with NONE intersection type

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..f31cd70 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -57,7 +57,7 @@ class IntersectionType(enum.Enum):
     ALMOST = 3
 
     def __call__(self, intersect_data: ty.Optional[ty.Union['Point', 'Segment']] = None) -> 'IntersectionInfo':
-        if self == IntersectionType.NONE and intersect_data is not IntersectionType:
+        if self == IntersectionType.NONE and intersect_data is not None:
             raise ValueError(f"'intersect_data' must be 'None' for type {self}")
 
         if self == IntersectionType.EXACT and not isinstance(intersect_data, skcurve._base.Point):
-- 
2.43.0


From c9c6b9f387dc08752e2406751a9fef62f061c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 17/46] fix: almost intersections of curves with integer data

---
 skcurve/_geomalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index b379abb..8384c66 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -490,6 +490,10 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     """
 
+    # The points on the segments are not integer in general
+    data1 = np.asarray(data1, dtype=np.float64)
+    data2 = np.asarray(data2, dtype=np.float64)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
-- 
2.43.0


From 1bc1a4c55a83c88972007d735e1c595a03890b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 18/46] fix: smoothed curve always has float64 type

---
 skcurve/_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..5b30adf 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -170,7 +170,7 @@ def window_filter(curve: 'Curve',
     window /= window.sum()
 
     return ndimage.convolve1d(
-        curve.data,
+        curve.data.astype(np.float64),
         weights=window,
         mode=mode,
         cval=cval,
@@ -216,4 +216,4 @@ def smooth(curve: 'Curve', method: str, **params) -> 'Curve':
     except Exception as err:
         raise SmoothingError(f'Smoothing has failed: {err}') from err
 
-    return type(curve)(smoothed_data)
+    return type(curve)(smoothed_data, dtype=np.float64)
-- 
2.43.0


From 93124a872b545415459df01f297b1afc25ecb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 19/46] fix: window smoothing does not change the array
 returned by the window callable

---
 skcurve/_smooth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 5b30adf..7d21297 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -167,7 +167,7 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    window = window / np.sum(window)
 
     return ndimage.convolve1d(
         curve.data.astype(np.float64),
-- 
2.43.0


From e45d799f9a16c805251cd01dfe95d2cee7e402c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 20/46] fix: raise ValueError for non-numeric dtype

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 5001c31..745818a 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -139,7 +139,7 @@ class Point(abc.Sequence):
             dtype = DEFAULT_DTYPE
 
         if not np.issubdtype(dtype, np.number):
-            ValueError('dtype must be a numeric type.')
+            raise ValueError('dtype must be a numeric type.')
 
         data = np.array(point_data, dtype=np.dtype(dtype))
 
@@ -1143,7 +1143,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         dtype = np.dtype(dtype)
 
         if not np.issubdtype(dtype, np.number):
-            ValueError(f"'dtype' must be a numeric type not {dtype}.")
+            raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
         data = as2d(curve_data, axis=axis).astype(dtype)
 
-- 
2.43.0


From f9ae4e7ea11a141e647df27832299ec2bc2bef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 21/46] fix: pass additional arguments to the metric callable
 in Point.distance

---
 skcurve/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 745818a..8971f36 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -353,11 +353,12 @@ class Point(abc.Sequence):
 
         if isinstance(metric, str):
             metric = _distance.get_metric(metric, **kwargs)
+            kwargs = {}
 
         if not callable(metric):
             raise TypeError('Metric must be str or callable')
 
-        return metric(self._data, other.data)
+        return metric(self._data, other.data, **kwargs)
 
     def _op(self, op, other: ty.Union['Point', Numeric], right: bool = False) -> ty.Optional['Point']:
         left_data = self._data
-- 
2.43.0


From 201dcee3a33b01f7e3b506ff1aaa63dc147d74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 22/46] fix: coplanarity of a few points and unsigned integer
 points

---
 skcurve/_geomalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 8384c66..73038d4 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -255,12 +255,12 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     """
 
     if isinstance(points, np.ndarray):
-        points_data = np.array(points)
+        points_data = np.array(points, dtype=np.float64)
     else:
         points_data = np.vstack([point.data for point in points])
 
-    if points_data.shape[1] < 3:
-        # In dimension < 3 the points are coplanar
+    if points_data.shape[0] <= 3 or points_data.shape[1] < 3:
+        # In dimension < 3 the points are coplanar. Three or fewer points are always coplanar
         return True
 
     # Relative differences
-- 
2.43.0


From 5bf2c9d1d48083df1f55743d961986233543ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 23/46] fix: register decorators return the decorated object

---
 skcurve/_interpolate.py | 1 +
 skcurve/_intersect.py   | 2 ++
 skcurve/_smooth.py      | 1 +
 3 files changed, 4 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index ba10931..5c9be25 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -394,6 +394,7 @@ def register_interpolator(method: str):
         if not issubclass(cls, InterpolatorBase):
             raise TypeError(f"{cls} is not a subclass of 'InterpolatorBase'")
         _interpolators[method] = cls
+        return cls
     return decorator
 
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index f31cd70..b1d5971 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -435,6 +435,8 @@ def register_intersect_method(method: str, default: bool = False):
         if default:
             set_default_intersect_method(method)
 
+        return cls
+
     return decorator
 
 
diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 7d21297..bd16469 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -71,6 +71,7 @@ def register_smooth_method(method: str):
             raise ValueError(
                 f"'{method}' smoothing method already registered for {_smooth_methods[method]}")
         _smooth_methods[method] = method_callable
+        return method_callable
 
     return decorator
 
-- 
2.43.0


From 2a159b787a8a94126f804d0d061b0e5a2bdab596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 24/46] fix: needless warning from coorientplane for parametric
 curves

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 8971f36..6863a7c 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1695,7 +1695,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if not is_coorient:
             return self.reverse()
         else:
-            return Curve(self, tdata=self._tdata)
+            return Curve(self)
 
     def insert(self, index: Indexer, other: PointCurveUnion) -> 'Curve':
         """Inserts point or sub-curve to the curve and returns new curve
-- 
2.43.0


From 9dcb2c97b3b6dece86e3b73d849211a03af51340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 25/46] fix: Frenet vectors of densely sampled and small curves

---
 skcurve/_diffgeom.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 0b63467..9472e18 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -31,6 +31,7 @@ if ty.TYPE_CHECKING:
 
 
 DEFAULT_GRAD_EDGE_ORDER = 2
+NOT_WELL_DEFINED_FACTOR = 4096
 
 
 class DifferentialGeometryWarning(UserWarning):
@@ -164,9 +165,11 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     return np.gradient(data, axis=0, edge_order=edge_order)
 
 
-def _frenet_vector_norm(v: np.ndarray, warn_msg: str) -> np.ndarray:
+def _frenet_vector_norm(v: np.ndarray, warn_msg: str, data: np.ndarray) -> np.ndarray:
     norm = np.linalg.norm(v, axis=1)
-    not_well_defined = np.isclose(norm, 0.0)
+    # The floating point errors of the derivatives are proportional to the curve coordinates
+    scale = np.max(np.abs(data[np.isfinite(data)], dtype=np.float64), initial=0.0)
+    not_well_defined = norm <= NOT_WELL_DEFINED_FACTOR * np.finfo(norm.dtype).eps * scale
     is_not_well_defined = np.any(not_well_defined)
 
     if is_not_well_defined:
@@ -461,7 +464,7 @@ class CurvePointFunctionMixin:
             'Use "Curve.nonsingular" method to remove singularity from the curve data.'
         )
 
-        norm = _frenet_vector_norm(curve.tangent, not_well_defined_warn_msg)
+        norm = _frenet_vector_norm(curve.tangent, not_well_defined_warn_msg, curve.data)
         return curve.tangent / norm
 
     @cached_property
@@ -500,7 +503,7 @@ class CurvePointFunctionMixin:
             'The curve is straight line and normal vectors are not well defined. '
         )
 
-        norm = _frenet_vector_norm(curve.normal, not_well_defined_warn_msg)
+        norm = _frenet_vector_norm(curve.normal, not_well_defined_warn_msg, curve.data)
         e2 = curve.normal / norm
 
         # FIXME: what to do with not well defined the normal vectors?
@@ -542,7 +545,7 @@ class CurvePointFunctionMixin:
             'May be the curve is straight line or a plane and binormal vectors are not well defined. '
         )
 
-        norm = _frenet_vector_norm(curve.binormal, not_well_defined_warn_msg)
+        norm = _frenet_vector_norm(curve.binormal, not_well_defined_warn_msg, curve.data)
         e3 = curve.binormal / norm
 
         # FIXME: what to do with not well defined the binormal vectors?
-- 
2.43.0


From 858cd4e71ec2b6640ecd17ebefcf07567476aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 26/46] fix: slice of the point coordinates is always a point

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 6863a7c..08104e4 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -194,7 +194,7 @@ class Point(abc.Sequence):
 
         data = self._data[index]
 
-        if data.size > 1:
+        if data.ndim > 0:
             return Point(data)
         else:
             return data
-- 
2.43.0


From 29af9b5189ad0a5e2476829c5edd7a9a93b419ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 27/46] fix: reject negative axis that is out of the input
 array shape

---
 skcurve/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index e6bedc2..1fa5c2a 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -35,7 +35,7 @@ def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     orig_axis = axis
     axis = arr.ndim + axis if axis < 0 else axis
 
-    if axis >= arr.ndim:
+    if not 0 <= axis < arr.ndim:
         raise ValueError(f'axis {orig_axis} is out of array shape {arr.shape}.')
 
     tr_axes = list(range(arr.ndim))
-- 
2.43.0


From 2cb5ef754053239e120c06ffbc9b06d007a13811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 28/46] fix: reject out of bounds negative indices in the list
 of insert positions

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 08104e4..765b73a 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1763,6 +1763,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
             raise TypeError('Inserted object must be Point or Curve instance')
 
         try:
+            if not isinstance(index, slice) and np.any(np.asarray(index) < -self.size):
+                raise IndexError('Insert position is out of bounds')
+
             return Curve(
                 np.insert(self._data, index, other_data, axis=0)
             )
-- 
2.43.0


From 456127e25e5cf0cc4b0b3cd5ffa367f57b51ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 29/46] fix: operations of numpy number and point return the
 point

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 765b73a..06f903e 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -128,6 +128,9 @@ class Point(abc.Sequence):
 
     __slots__ = ('_data', )
 
+    # The priority is greater than numpy scalars have to make numpy defer to the point reflected operators
+    __array_priority__ = -1.0
+
     def __init__(self, point_data: PointData, dtype: DType = None) -> None:
         """Constructs the `Point` instance
         """
-- 
2.43.0


From 90cbf5e6c2b6c2634def8927da0108959913c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 30/46] fix: shape of the Frenet vectors, curvature and torsion
 of empty curves

---
 skcurve/_diffgeom.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9472e18..b303002 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -364,7 +364,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         sder = curve.secondderiv
         e1 = curve.frenet1
@@ -401,7 +401,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         tder = curve.thirdderiv
         e1 = curve.frenet1
@@ -456,7 +456,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the first Frenet vectors (unit tangent vectors). '
@@ -496,7 +496,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the second Frenet vectors (unit normal vectors). '
@@ -538,7 +538,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the third Frenet vectors (unit binormal vectors). '
@@ -597,7 +597,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.array([], dtype=np.float64)
 
         if curve.is2d:
             # Compute signed curvature value for a plane curve
@@ -646,7 +646,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.array([], dtype=np.float64)
 
         e2_grad = _gradient(curve.frenet2)
         tangent_norm = np.linalg.norm(curve.tangent, axis=1)
-- 
2.43.0


From 6f03518f0a2a491da2669b697fe4dd8edef52789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 31/46] fix: Frenet vectors are zeros where the frame is not
 well defined

---
 skcurve/_diffgeom.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index b303002..9091f4f 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -165,16 +165,22 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     return np.gradient(data, axis=0, edge_order=edge_order)
 
 
-def _frenet_vector_norm(v: np.ndarray, warn_msg: str, data: np.ndarray) -> np.ndarray:
+def _frenet_vector_norm(v: np.ndarray, warn_msg: str, data: np.ndarray,
+                        prev_frenet: ty.Optional[np.ndarray] = None) -> np.ndarray:
     norm = np.linalg.norm(v, axis=1)
     # The floating point errors of the derivatives are proportional to the curve coordinates
     scale = np.max(np.abs(data[np.isfinite(data)], dtype=np.float64), initial=0.0)
     not_well_defined = norm <= NOT_WELL_DEFINED_FACTOR * np.finfo(norm.dtype).eps * scale
+
+    if prev_frenet is not None:
+        # The vector is determined only if the previous Frenet vector is determined
+        not_well_defined |= ~np.any(prev_frenet, axis=1)
+
     is_not_well_defined = np.any(not_well_defined)
 
     if is_not_well_defined:
         warnings.warn(warn_msg, DifferentialGeometryWarning, stacklevel=2)
-        norm[not_well_defined] = 1.0
+        norm[not_well_defined] = np.inf
 
     return norm[:, np.newaxis]
 
@@ -503,7 +509,7 @@ class CurvePointFunctionMixin:
             'The curve is straight line and normal vectors are not well defined. '
         )
 
-        norm = _frenet_vector_norm(curve.normal, not_well_defined_warn_msg, curve.data)
+        norm = _frenet_vector_norm(curve.normal, not_well_defined_warn_msg, curve.data, curve.frenet1)
         e2 = curve.normal / norm
 
         # FIXME: what to do with not well defined the normal vectors?
@@ -545,7 +551,7 @@ class CurvePointFunctionMixin:
             'May be the curve is straight line or a plane and binormal vectors are not well defined. '
         )
 
-        norm = _frenet_vector_norm(curve.binormal, not_well_defined_warn_msg, curve.data)
+        norm = _frenet_vector_norm(curve.binormal, not_well_defined_warn_msg, curve.data, curve.frenet2)
         e3 = curve.binormal / norm
 
         # FIXME: what to do with not well defined the binormal vectors?
-- 
2.43.0


From de5ddb818687df474a4e538db7164cbb6085c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 32/46] fix: intersect raises TypeError for operands which are
 neither segments nor curves

---
 skcurve/_intersect.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index b1d5971..25f1f84 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -791,6 +791,11 @@ def intersect(obj1: ty.Union['Segment', 'Curve'],
     if method is None:
         method = _default_intersect_method
 
+    valid_obj_types = (skcurve._base.Segment, skcurve._base.Curve)
+
+    if not isinstance(obj1, valid_obj_types) or not isinstance(obj2, valid_obj_types):
+        raise TypeError('"obj1" and "obj2" arguments must be \'Segment\' or \'Curve\'.')
+
     if obj1.ndim != obj2.ndim:
         raise ValueError('The dimension of both objects must be equal.')
 
-- 
2.43.0


From cfa7f5c25f8c92a959a4db8e3c88ef161c763d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 33/46] fix: csaps interpolation is not transposed when the
 grid size equals the dimension

---
 skcurve/_interpolate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 5c9be25..345644d 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -633,10 +633,11 @@ class CsapsInterpolator(InterpolatorBase):
                  weights: ty.Optional[np.ndarray] = None):
         super().__init__(curve)
         self.csaps = csaps.CubicSmoothingSpline(
-            curve.t, curve.data, weights=weights, smooth=smooth, axis=0)
+            curve.t, curve.data.T, weights=weights, smooth=smooth)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
-        return self.csaps(grid)
+        # csaps does not restore the layout of MxN data when M == N for the given grid
+        return self.csaps(grid).T
 
 
 def interp_methods() -> ty.List[str]:
-- 
2.43.0


From 54d448413aa5e02fdbdc3c175b9d2dbf69f46030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 34/46] fix: keep the dimension of curves built from empty
 coordinate vectors

---
 skcurve/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 06f903e..bc58a65 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1152,9 +1152,10 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
-            if is_array and axis == 0 and curve_data.ndim == 2:
+            empty_shape = np.shape(curve_data)
+            if len(empty_shape) == 2 and axis in (-2, -1, 0, 1) and empty_shape[axis] == 0:
                 # The dimension of empty MxN data is known
-                ndmin = max(ndmin, curve_data.shape[1])
+                ndmin = max(ndmin, empty_shape[1 - axis % 2])
             data = np.reshape([], (0, ndmin)).astype(dtype)
 
         m, n = data.shape
-- 
2.43.0


From 799ccc0a01ddb51fa2e17df3157a402d92283ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 35/46] fix: insert and append raise TypeError for objects
 which are not points or curves

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index bc58a65..8e005e1 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1757,8 +1757,6 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        self._check_ndim(other)
-
         if isinstance(other, Point):
             other_data = np.array(other, ndmin=2)
         elif isinstance(other, Curve):
@@ -1766,6 +1764,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         else:
             raise TypeError('Inserted object must be Point or Curve instance')
 
+        self._check_ndim(other)
+
         try:
             if not isinstance(index, slice) and np.any(np.asarray(index) < -self.size):
                 raise IndexError('Insert position is out of bounds')
-- 
2.43.0


From 8115a282ecbbb161c676a540ef36b46227ef79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 36/46] fix: parallel and overlap raise TypeError for objects
 which are not segments

---
 skcurve/_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 8e005e1..d58d854 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -719,6 +719,9 @@ class Segment:
 
         """
 
+        if not isinstance(other, Segment):
+            raise TypeError('The type of "other" argument must be \'Segment\'.')
+
         return _geomalg.parallel_segments(self, other, tol=tol)
 
     def collinear(self, other: ty.Union['Segment', 'Point'],
@@ -814,6 +817,9 @@ class Segment:
 
         """
 
+        if not isinstance(other, Segment):
+            raise TypeError('The type of "other" argument must be \'Segment\'.')
+
         return _geomalg.overlap_segments(self, other, check_collinear)
 
     def intersect(self, other: 'Segment',
-- 
2.43.0


From 3bc8c5c11ac08e208d974836480e7fac5ed69117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 37/46] fix: values raises ValueError for a negative axis out
 of the dimensions

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index d58d854..f99fc58 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1905,7 +1905,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if axis is not None and not isinstance(axis, (int, np.integer)):
             raise ValueError('Axis must be an integer')
 
-        if axis is not None and axis >= self.ndim:
+        if axis is not None and not -self.ndim <= axis < self.ndim:
             raise ValueError(f'The axis {axis} is out of the curve dimensions {self.ndim}')
 
         if axis is not None:
-- 
2.43.0


From efc42aa6ba5323eb07c6911aaf5edff715d2c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 38/46] fix: use the same tolerance at both ends of a segment
 in exact intersection

The relative tolerance of np.isclose applied to the end t = 1 only, so a segment
which ends before the other one did or did not intersect it depending on its direction.
---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index 25f1f84..17e42e8 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -507,7 +507,7 @@ class ExactIntersectionMethod(IntersectionMethodBase):
                     IntersectionWarning)
 
         if np.all(((t > 0) | np.isclose(t, 0)) &
-                  ((t < 1) | np.isclose(t, 1))):
+                  ((t < 1) | np.isclose(t, 1, rtol=0.0))):
             intersect_point1 = segment1.point(t[0])
             intersect_point2 = segment2.point(t[1])
 
-- 
2.43.0


From f56d4635cd05f04d8458120ae23fc0b6f976adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 39/46] fix: exact intersection of segments with large
 coordinates

The rounding errors are proportional to the coordinates of the segments, so the check
of the solution has refused true intersections with a zero coordinate, and the check of
the residuals has warned about correct solutions.
---
 skcurve/_intersect.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index 17e42e8..de722a3 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -492,6 +492,9 @@ class ExactIntersectionMethod(IntersectionMethodBase):
                       -segment2.direction.data), axis=1)
         b = (segment2.p1 - segment1.p1).data
 
+        # The floating point errors are proportional to the segments coordinates
+        scale = max(1.0, np.max(np.abs([segment1.data, segment2.data], dtype=np.float64)))
+
         if segment1.ndim == 2:
             try:
                 t = np.linalg.solve(a, b)
@@ -501,7 +504,7 @@ class ExactIntersectionMethod(IntersectionMethodBase):
         else:
             t, residuals, *_ = np.linalg.lstsq(a, b, rcond=None)
 
-            if residuals.size > 0 and residuals[0] > self._feps:
+            if residuals.size > 0 and residuals[0] > self._feps * scale**2:
                 warnings.warn(
                     f"The 'lstsq' residuals are {residuals} > {self._feps}. Computation result might be wrong.",
                     IntersectionWarning)
@@ -514,7 +517,7 @@ class ExactIntersectionMethod(IntersectionMethodBase):
             if intersect_point1 != intersect_point2:
                 distance = intersect_point1.distance(intersect_point2)
 
-                if distance > self._feps:
+                if distance > np.sqrt(self._feps) * scale:
                     warnings.warn(
                         f"Incorrect solution. The points for 't1' and 't2' are different (distance: {distance}).",
                         IntersectionWarning)
-- 
2.43.0


From 5147bfb46fe43bd88325bebd3b132da541a3884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 40/46] fix: t-parameter of points on segments with large
 coordinates without a warning

The rounding errors are proportional to the coordinates of the segment, so the check
of the residuals has warned about correct values.
---
 skcurve/_geomalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 73038d4..fb64865 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -98,7 +98,10 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
 
     t, residuals, *_ = np.linalg.lstsq(a, b, rcond=None)
 
-    if residuals.size > 0 and residuals[0] > F_EPS:
+    # The floating point errors are proportional to the segment coordinates
+    scale = max(1.0, np.max(np.abs(segment.data, dtype=np.float64)))
+
+    if residuals.size > 0 and residuals[0] > F_EPS * scale**2:
         warnings.warn(
             f"The 'lstsq' residuals are {residuals}. 't' value(s) might be wrong.",
             GeometryAlgorithmsWarning)
-- 
2.43.0


From 1869984f4eb993ede5af816221818f60a818b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 41/46] fix: coplanar points within the rounding errors of
 their coordinates

The default tolerance was proportional to the size of the point set only, so points of a plane
away from the origin were not coplanar, and exact intersections of spatial segments were missed.
---
 skcurve/_geomalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index fb64865..f0f3aec 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -266,6 +266,9 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
         # In dimension < 3 the points are coplanar. Three or fewer points are always coplanar
         return True
 
+    if tol is None:
+        tol = np.linalg.norm(points_data) * max(points_data.shape) * F_EPS
+
     # Relative differences
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
-- 
2.43.0


From 761bff28acb9ea29f38c5ce8e61df5602a5a9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 42/46] fix: overlap of collinear segments whose coordinates
 differ by rounding errors

Segments on the same line parallel to an axis had no overlap (and no intersection) if their
common coordinate differed by a rounding error, such as 0.3 and 0.1 + 0.2. The same is true for
segments which touch each other within the rounding errors.
---
 skcurve/_geomalg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index f0f3aec..c74ce6f 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -312,9 +312,15 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
         np.minimum(p21_data, p22_data),
     )
 
-    if np.any(data_maxmin > data_minmax):
+    # The equal coordinates might differ by the rounding errors
+    points_data = np.array([p11_data, p12_data, p21_data, p22_data], dtype=np.float64)
+    tol = np.linalg.norm(points_data) * max(points_data.shape) * F_EPS
+
+    if np.any(data_maxmin > data_minmax + tol):
         return None
 
+    data_minmax = np.maximum(data_minmax, data_maxmin)
+
     # The overlap segment has the same slope as the given segments
     direction = p12_data - p11_data
     if not np.any(direction):
-- 
2.43.0


From e715dce919f2cd5c16015430e882337703e8b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 43/46] fix: arithmetic and geometry of integer points out of
 the range of their type

---
 skcurve/_base.py    | 10 +++++-----
 skcurve/_geomalg.py | 14 +++++++-------
 skcurve/_numeric.py | 25 +++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index f99fc58..480757a 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -31,7 +31,7 @@ import skcurve._geomalg as _geomalg
 import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
-from skcurve._numeric import allequal, F_EPS
+from skcurve._numeric import allequal, noninteger, F_EPS
 from skcurve._utils import as2d
 
 
@@ -272,7 +272,7 @@ class Point(abc.Sequence):
         if not isinstance(other, Point):
             return NotImplemented
 
-        return ty.cast(Numeric, np.dot(self._data, other.data))
+        return ty.cast(Numeric, np.dot(noninteger(self._data), noninteger(other.data)))
 
     def __copy__(self) -> 'Point':
         return self.__deepcopy__()
@@ -361,13 +361,13 @@ class Point(abc.Sequence):
         if not callable(metric):
             raise TypeError('Metric must be str or callable')
 
-        return metric(self._data, other.data, **kwargs)
+        return metric(noninteger(self._data), noninteger(other.data), **kwargs)
 
     def _op(self, op, other: ty.Union['Point', Numeric], right: bool = False) -> ty.Optional['Point']:
-        left_data = self._data
+        left_data = noninteger(self._data)
 
         if isinstance(other, Point):
-            right_data = other.data
+            right_data = noninteger(other.data)
         elif isinstance(other, numbers.Number):
             right_data = other
         else:
diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index c74ce6f..65ff004 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -12,7 +12,7 @@ import typing as ty
 import numpy as np
 
 import skcurve._base
-from skcurve._numeric import F_EPS
+from skcurve._numeric import noninteger, F_EPS
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment  # noqa
@@ -88,11 +88,11 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
                 f"Given point '{point}' is not collinear with the segment '{segment}'",
                 GeometryAlgorithmsWarning)
             return np.nan
-        b = point.data - segment.p1.data
+        b = (point - segment.p1).data
         is_collinear = np.asarray([])
     else:
         is_collinear = np.array([segment.collinear(p, tol=tol) for p in point], dtype=np.bool_)
-        b = np.stack([p.data - segment.p1.data for p in point], axis=1)
+        b = np.stack([(p - segment.p1).data for p in point], axis=1)
 
     a = segment.direction.data[np.newaxis].T
 
@@ -225,7 +225,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if isinstance(points, np.ndarray):
         points_data = points.T
     else:
-        points_data = np.vstack([point.data for point in points]).T
+        points_data = noninteger(np.vstack([point.data for point in points])).T
 
     m = np.unique(points_data, axis=1)
 
@@ -260,7 +260,7 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if isinstance(points, np.ndarray):
         points_data = np.array(points, dtype=np.float64)
     else:
-        points_data = np.vstack([point.data for point in points])
+        points_data = noninteger(np.vstack([point.data for point in points]))
 
     if points_data.shape[0] <= 3 or points_data.shape[1] < 3:
         # In dimension < 3 the points are coplanar. Three or fewer points are always coplanar
@@ -322,9 +322,9 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     data_minmax = np.maximum(data_minmax, data_maxmin)
 
     # The overlap segment has the same slope as the given segments
-    direction = p12_data - p11_data
+    direction = segment1.direction.data
     if not np.any(direction):
-        direction = p22_data - p21_data
+        direction = segment2.direction.data
     if np.any(direction):
         direction = direction * np.sign(direction[np.flatnonzero(direction)[0]])
 
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index 104b529..cefef9e 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -67,6 +67,31 @@ def allequal(obj1: np.ndarray, obj2: np.ndarray, axis: ty.Optional[int] = None,
     return np.all(isequal(obj1, obj2, **kwargs), axis=axis)
 
 
+def noninteger(data: np.ndarray) -> np.ndarray:
+    """Returns integer data as float64 data and other data as is
+
+    Notes
+    -----
+    The results of arithmetic operations may be out of the integer type range
+
+    Parameters
+    ----------
+    data : np.ndarray
+        The data array
+
+    Returns
+    -------
+    res : np.ndarray
+        The data array that is not integer
+
+    """
+
+    if np.issubdtype(data.dtype, np.integer):
+        return data.astype(np.float64)
+    else:
+        return data
+
+
 def dot1d(data1: np.ndarray, data2: np.ndarray) -> np.ndarray:
     """Computes row-wise dot product of two MxN arrays
 
-- 
2.43.0


From 3f8ef703175ab945a8f1ada54f85987d15702c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:01 +0000
Subject: [PATCH 44/46] fix: copies and slices of a point keep its type

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 480757a..5e88411 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -198,7 +198,7 @@ class Point(abc.Sequence):
         data = self._data[index]
 
         if data.ndim > 0:
-            return Point(data)
+            return Point(data, dtype=data.dtype)
         else:
             return data
 
@@ -278,7 +278,7 @@ class Point(abc.Sequence):
         return self.__deepcopy__()
 
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
-        return Point(self)
+        return Point(self, dtype=self._data.dtype)
 
     @property
     def data(self) -> np.ndarray:
-- 
2.43.0


From 337b6e193d81887f54e8f2ca015c0a840d9cf0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 45/46] fix: only a vector of values is a new dimension of a
 curve

A matrix of values, such as a column vector or another curve, was inserted as several
dimensions, the number of which is not that of its columns.
---
 skcurve/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 5e88411..71f4749 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1954,6 +1954,8 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         if values is None:
             values = np.zeros(self.size, dtype=self.dtype)
+        elif np.asarray(values).ndim > 1:
+            raise ValueError('values must be 1-D array or sequence')
 
         try:
             return Curve(
-- 
2.43.0


From 405350bb66c12dfee8736112c5c5c3027ca202dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 46/46] fix: grids of curves in small units are strictly
 increasing

Steps of the interpolation grid below 1e-8 were taken for zero, so a curve which is shorter than about 1e-8 times the number of its
new points could not be interpolated at all.
---
 skcurve/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 345644d..6cfc359 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -357,7 +357,7 @@ class InterpolatorBase:
 
         dt = np.diff(grid)
 
-        if np.any(dt < 0) or np.any(np.isclose(dt, 0)):
+        if np.any(dt <= 0):
             raise ValueError(
                 'The values in the interpolation grid must be strictly increasing ordered.')
 
-- 
2.43.0


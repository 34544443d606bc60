From fa4b5dca7b2b9ae9087434924fbfc80504ae893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 001/102] fix: geometric Path.d() and segments() no longer need
 a transform the class does not have

---
 svgio/path.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 078d4c4..fe17cf3 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2752,14 +2752,9 @@ class Path(MutableSequence):
         return " ".join(parts)
 
     def d(self, relative=None, transformed=True, smooth=None):
-        path = self
-        if transformed:
-            path = abs(path)
-        return Path.svg_d(path._segments, relative=relative, smooth=smooth)
+        return Path.svg_d(self._segments, relative=relative, smooth=smooth)
 
     def segments(self, transformed=True):
-        if transformed and not self.transform.is_identity():
-            return [s * self.transform for s in self._segments]
         return self._segments
 
     def approximate_arcs_with_cubics(self, error=0.1):
@@ -2910,12 +2905,7 @@ class Subpath:
         return not self == other
 
     def segments(self, transformed=True):
-        path = self._path
-        if transformed:
-            return [
-                s * path.transform for s in path._segments[self._start : self._end + 1]
-            ]
-        return path._segments[self._start : self._end + 1]
+        return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
         if index < 0:
-- 
2.43.0


From edbc99e6d2950e0e7cf11fe23f7cfaad7faa40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 002/102] fix: Path @ Matrix applies the matrix to the segments

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index fe17cf3..5e22981 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2040,7 +2040,10 @@ class Path(MutableSequence):
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
+            for segment in self._segments:
+                segment *= other
+            self._length = None
+            self._lengths = None
         return self
 
     def __setitem__(self, index, new_element):
-- 
2.43.0


From 58939f39e4646c8ddeae70dd1653c58596b51b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 003/102] fix: constructing a Path from a Path or Subpath
 copies its segments

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 5e22981..cbe9ef2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1971,8 +1971,8 @@ class Path(MutableSequence):
             self._segments.extend(args)
         else:
             s = args[0]
-            if isinstance(s, Subpath):
-                self._segments.extend(s.segments(transformed=False))
+            if isinstance(s, (Path, Subpath)):
+                self._segments.extend(map(copy, s.segments(transformed=False)))
             elif isinstance(s, str):
                 self._segments = list()
                 self.parse(s)
-- 
2.43.0


From a1b2cc47ede2ececba825c6e04140b67fcc42503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 004/102] fix: path and segment addition do not share or relink
 the operand segment

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index cbe9ef2..6f6ddcf 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -375,10 +375,10 @@ class PathSegment:
 
     def __iadd__(self, other):
         if isinstance(other, PathSegment):
-            path = Path(self, other)
+            path = Path(copy(self), copy(other))
             return path
         elif isinstance(other, str):
-            path = Path(self) + other
+            path = Path(copy(self)) + other
             return path
         return NotImplemented
 
@@ -2094,7 +2094,7 @@ class Path(MutableSequence):
     def __add__(self, other):
         if isinstance(other, (str, Path, Subpath, PathSegment)):
             n = copy(self)
-            n += other
+            n += copy(other)
             return n
         return NotImplemented
 
@@ -2105,7 +2105,7 @@ class Path(MutableSequence):
             return path
         elif isinstance(other, PathSegment):
             path = copy(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
@@ -2836,11 +2836,11 @@ class Subpath:
     def __radd__(self, other):
         if isinstance(other, str):
             path = Path(other)
-            path.extend(map(copy, self._path))
+            path.extend(map(copy, self))
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
-- 
2.43.0


From 31456e29ce52c8937b8a17dfde05e20530998904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 005/102] fix: smooth quadratic after a non-quadratic does not
 reflect a cubic control (and vice versa)

---
 svgio/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 6f6ddcf..f8e2df7 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2499,7 +2499,9 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = start_pos
+        if len(self._segments) and isinstance(self._segments[-1], QuadraticBezier):
+            control1 = self.smooth_point
         end_pos = points[0]
         if end_pos in ("z", "Z"):
             end_pos = self.z_point
@@ -2533,7 +2535,9 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = start_pos
+        if len(self._segments) and isinstance(self._segments[-1], CubicBezier):
+            control1 = self.smooth_point
         control2 = points[0]
 
         if control2 in ("z", "Z"):
-- 
2.43.0


From 37d0c605987711f7f2beb60d648eaabaee362e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 006/102] fix: segment d() honours the recorded relative flag
 instead of its opposite

---
 svgio/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index f8e2df7..db151bd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -599,7 +599,7 @@ class Move(PathSegment):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "M %s" % self.end
@@ -718,7 +718,7 @@ class Close(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "Z"
@@ -737,7 +737,7 @@ class Line(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "L %s" % self.end
@@ -907,7 +907,7 @@ class QuadraticBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "T %s" % self.end
@@ -916,7 +916,7 @@ class QuadraticBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "Q %s %s" % (self.control, self.end)
@@ -1105,7 +1105,7 @@ class CubicBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "S %s %s" % (self.control2, self.end)
@@ -1117,7 +1117,7 @@ class CubicBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "C %s %s %s" % (self.control1, self.control2, self.end)
@@ -1923,7 +1923,7 @@ class Arc(Curve):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "A %G,%G %G %d,%d %s" % (
-- 
2.43.0


From 2530f56f09c99d24e72e5529681d6e228513e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 007/102] fix: str() of a single bezier segment keeps its
 control points

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index db151bd..9cbfe38 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -390,7 +390,7 @@ class PathSegment:
         command to correctly provide the starting position.
         :return: string representation of the object.
         """
-        d = self.d()
+        d = self.d(smooth=False)
         if self.start is not None:
             if self.relative:
                 return "m %s %s" % (self.start, d)
-- 
2.43.0


From 682ae697736c66152872770696154ac18575b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 008/102] fix: multi-point builder calls keep the relative flag
 for every point

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 9cbfe38..2bd6085 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2464,7 +2464,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(points) > 1:
-            self.line(*points[1:])
+            self.line(*points[1:], relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2510,7 +2510,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 1:
-            self.smooth_quad(*points[1:])
+            self.smooth_quad(*points[1:], relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2527,7 +2527,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 2:
-            self.quad(*points[2:])
+            self.quad(*points[2:], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2550,7 +2550,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 2:
-            self.smooth_cubic(*points[2:])
+            self.smooth_cubic(*points[2:], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2570,7 +2570,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 3:
-            self.cubic(*points[3:])
+            self.cubic(*points[3:], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2588,7 +2588,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(arc_args) > 6:
-            self.arc(*arc_args[6:])
+            self.arc(*arc_args[6:], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From 1f1b79ac25a892de216b1f16b11e0f18f9f4f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 009/102] fix: reversing a path or subpath discards its
 remembered lengths

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 2bd6085..474d78d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2676,6 +2676,8 @@ class Path(MutableSequence):
             p += subpath
         self._segments = p._segments
         self._segments[0].start = prepoint
+        self._length = None
+        self._lengths = None
         return self
 
     def subpath(self, index):
@@ -2967,6 +2969,8 @@ class Subpath:
                 segments[e] = start_segment
             s += 1
             e -= 1
+        self._path._length = None
+        self._path._lengths = None
         start = self.index_to_path_index(start)
         end = self.index_to_path_index(end)
         self._path._validate_connection(start - 1, prefer_second=True)
-- 
2.43.0


From 8067173797490a96b0a344706ac5262a0aa7779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 010/102] fix: Path.npoint agrees with point at every position

---
 svgio/path.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 474d78d..aaf2327 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2170,35 +2170,31 @@ class Path(MutableSequence):
         segments = self.segments(False)
         if len(segments) == 0:
             return None
+        positions = np.asarray(positions, dtype=float)
         # Shortcuts
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
-            i = int(round(positions * (len(segments) - 1)))
-            point = segments[i].point(0.0)
-            xy[:] = point
+            for i, position in enumerate(positions):
+                xy[i] = list(self.point(position, error=error))
             return xy
 
         # Find which segment the point we search for is located on:
         segment_start = 0
         for index, segment in enumerate(segments):
             segment_end = segment_start + self._lengths[index]
-            position_subset = (segment_start <= positions) & (positions < segment_end)
+            position_subset = (segment_start < positions) & (positions <= segment_end)
             v0 = positions[position_subset]
-            if not len(v0):
-                continue  # Nothing matched.
-            d = segment_end - segment_start
-            if d == 0:  # This segment is 0 length.
-                segment_pos = 0.0
-            else:
-                segment_pos = (v0 - segment_start) / d
-            c = segment.npoint(segment_pos)
-            xy[position_subset] = c[:]
+            if len(v0):
+                segment_pos = (v0 - segment_start) / (segment_end - segment_start)
+                xy[position_subset] = [list(c) for c in segment.npoint(segment_pos)]
             segment_start = segment_end
 
-        # the loop above will miss position == 1
-        xy[positions == 1] = np.array(list(segments[-1].end))
+        # The loop above misses the ends, and what rounding leaves between the last segment end and 1.
+        xy[positions > segment_start] = list(segments[-1].point(1.0))
+        xy[positions <= 0] = list(segments[0].point(0.0))
+        xy[positions >= 1] = list(segments[-1].point(1.0))
         return xy
 
     def point(self, position, error=ERROR):
@@ -2229,7 +2225,7 @@ class Path(MutableSequence):
             return segments[i].point(0.0)
         # Find which segment the point we search for is located on:
         segment_start = 0
-        segment_pos = 0
+        segment_pos = 1.0
         segment = segments[0]
         for index, segment in enumerate(segments):
             segment_end = segment_start + self._lengths[index]
-- 
2.43.0


From dd9560baa336eab75d601fdf438477acfba0de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 011/102] fix: iterating a segment is re-entrant and leaves no
 cursor on it

---
 svgio/path.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index aaf2327..8b2ad86 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -399,21 +399,10 @@ class PathSegment:
         return d
 
     def __iter__(self):
-        self.n = -1
-        return self
-
-    def __next__(self):
-        self.n += 1
-        try:
-            val = self[self.n]
-            if val is None:
-                self.n += 1
-                val = self[self.n]
-            return val
-        except IndexError:
-            raise StopIteration
-
-    next = __next__
+        for i in range(len(self)):
+            val = self[i]
+            if val is not None:
+                yield val
 
     @staticmethod
     def segment_length(
-- 
2.43.0


From 194cbf59ca2c85a4263815e39a868fe91ead5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 012/102] fix: arcs stay on the transformed ellipse under skew,
 axis exchange and reflection

---
 svgio/path.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 8b2ad86..c0b7597 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1418,9 +1418,20 @@ class Arc(Curve):
                 self.prx *= other
             if self.pry is not None:
                 self.pry *= other
-            if other.value_scale_x() < 0:
-                self.sweep = -self.sweep
-            if other.value_scale_y() < 0:
+            if (
+                self.center is not None
+                and self.prx is not None
+                and self.pry is not None
+            ):
+                # The image of the axes is only a pair of conjugate radii, the axes of the image are at right angles.
+                u = self.prx - self.center
+                v = self.pry - self.center
+                uv = u.x * v.x + u.y * v.y
+                if abs(uv) > 1e-14 * abs(u) * abs(v):
+                    t = 0.5 * atan2(2.0 * uv, abs(u) ** 2 - abs(v) ** 2)
+                    self.prx = self.center + u * cos(t) + v * sin(t)
+                    self.pry = self.center + v * cos(t) - u * sin(t)
+            if other.determinant < 0 and self.sweep is not None:
                 self.sweep = -self.sweep
         return self
 
-- 
2.43.0


From 449e760319f8b6320c8df9baf6a2a0a3237fe99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 013/102] fix: negative arc radii are taken as absolute values
 (SVG F.6.6)

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index c0b7597..3f83a38 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1595,6 +1595,8 @@ class Arc(Curve):
         self.start = start
         end = Point(end)
         self.end = end
+        rx = abs(rx)
+        ry = abs(ry)
         if start == end or rx == 0 or ry == 0:
             # If start is equal to end, there are infinite number of circles so these void out.
             # We still permit this kind of arc, but SVG parameterization cannot be used to achieve it.
-- 
2.43.0


From 5f998dce36f344640a0c55528a92ee03e5db932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 014/102] fix: an arc with a zero radius is the straight line
 to its end (SVG F.6.2)

---
 svgio/path.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 3f83a38..f06bee4 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1471,9 +1471,9 @@ class Arc(Curve):
 
             return self._points_numpy(np.array(positions))
         except ImportError:
-            if self.start == self.end and self.sweep == 0:
-                # This is equivalent of omitting the segment
-                return [self.start] * len(positions)
+            if self.sweep == 0:
+                # This is a straight line, or equivalent of omitting the segment.
+                return [Point.towards(self.start, self.end, pos) for pos in positions]
 
             start_t = self.get_start_t()
             return [
@@ -1495,8 +1495,9 @@ class Arc(Curve):
 
         xy = np.empty((len(positions), 2), dtype=float)
 
-        if self.start == self.end and self.sweep == 0:
-            xy[:, 0], xy[:, 1] = self.start
+        if self.sweep == 0:
+            xy[:, 0] = self.start.x + (self.end.x - self.start.x) * positions
+            xy[:, 1] = self.start.y + (self.end.y - self.start.y) * positions
         else:
             t = self.get_start_t() + self.sweep * positions
 
@@ -1554,10 +1555,8 @@ class Arc(Curve):
         approximation, as for cubic bezier curves.
         """
         if self.sweep == 0:
-            return 0
-        if self.start == self.end and self.sweep == 0:
-            # This is equivalent of omitting the segment
-            return 0
+            # This is a straight line, or equivalent of omitting the segment.
+            return Point.distance(self.start, self.end)
         a = self.rx
         b = self.ry
         d = abs(a - b)
@@ -1685,7 +1684,9 @@ class Arc(Curve):
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
         if arc_required == 0:
-            return
+            if self.start == self.end:
+                return
+            arc_required = 1
         t_slice = self.sweep / float(arc_required)
 
         current_t = self.get_start_t()
@@ -1720,7 +1721,9 @@ class Arc(Curve):
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
         if arc_required == 0:
-            return
+            if self.start == self.end:
+                return
+            arc_required = 1
         t_slice = self.sweep / float(arc_required)
 
         theta = self.get_rotation()
@@ -1893,7 +1896,7 @@ class Arc(Curve):
         Code from: https://github.com/mathandy/svgpathtools
         """
         if self.sweep == 0:
-            return self.start.x, self.start.y, self.end.x, self.end.y
+            return PathSegment.bbox(Line(self.start, self.end))
         phi = self.get_rotation().as_radians
         if cos(phi) == 0:
             atan_x = tau / 4.0
-- 
2.43.0


From fdb7589d76c64e5435f46421b72b216daa5c491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 015/102] fix: cubic bezier bbox finds the extremum when the
 cubic coefficient vanishes

---
 svgio/path.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index f06bee4..b5ae629 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1038,19 +1038,16 @@ class CubicBezier(Curve):
         local_extremizers = [0, 1]
         a = [c[v] for c in self]
         denom = a[0] - 3 * a[1] + 3 * a[2] - a[3]
-        if abs(denom) >= 1e-12:
-            delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
-            if delta >= 0:  # otherwise no local extrema
-                sqdelta = sqrt(delta)
-                tau = a[0] - 2 * a[1] + a[2]
-                r1 = (tau + sqdelta) / denom
-                r2 = (tau - sqdelta) / denom
-                if 0 < r1 < 1:
-                    local_extremizers.append(r1)
-                if 0 < r2 < 1:
-                    local_extremizers.append(r2)
-        else:
-            local_extremizers.append(0.5)
+        delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
+        if delta >= 0:  # otherwise no local extrema
+            sqdelta = sqrt(delta)
+            tau = a[0] - 2 * a[1] + a[2]
+            # The root formulas which do not cancel, these remain accurate as denom vanishes.
+            q = tau + sqdelta if tau >= 0 else tau - sqdelta
+            if denom != 0 and 0 < q / denom < 1:
+                local_extremizers.append(q / denom)
+            if q != 0 and 0 < (a[0] - a[1]) / q < 1:
+                local_extremizers.append((a[0] - a[1]) / q)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From df5af91757169e8d5a91cd01f2bbc4c87f27b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 016/102] fix: quadratic bezier length of nearly straight
 curves

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index b5ae629..cefd31d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -853,6 +853,9 @@ class QuadraticBezier(Curve):
         """Calculate the length of the path up to a certain position"""
         a = self.start - 2 * self.control + self.end
         b = 2 * (self.control - self.start)
+        if abs(a) < 1e-3 * abs(b):
+            # The closed form cancels as a vanishes. Simpson's rule for the nearly constant speed does not.
+            return (abs(b) + 4 * abs(a + b) + abs(2 * a + b)) / 6.0
         try:
             # For an explanation of this case, see
             # http://www.malczak.info/blog/quadratic-bezier-curve-length/
-- 
2.43.0


From b0c037f120a6d9a86caaf51736ed310db3e1233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 017/102] fix: an arc given by its end and sweep computes the
 start, keeping the end

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index cefd31d..a706f39 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1364,7 +1364,7 @@ class Arc(Curve):
         if self.sweep is not None and self.start is None and self.end is not None:
             end_t = self.get_end_t()
             start_t = end_t - self.sweep
-            self.end = self.point_at_t(start_t)
+            self.start = self.point_at_t(start_t)
 
     def __repr__(self):
         return "Arc(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 5c66bb7689865659d72d23c37da6a67a1dc1d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 018/102] fix: Subpath.bbox covers only what the subpath draws,
 Subpath.d honours smooth

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index a706f39..f3557d9 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2940,7 +2940,7 @@ class Subpath:
     def bbox(self):
         """returns a bounding box for the input Path"""
         segments = self._path._segments[self._start : self._end + 1]
-        bbs = [seg.bbox() for seg in segments if not isinstance(Close, Move)]
+        bbs = [seg.bbox() for seg in segments if not isinstance(seg, Move)]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
         except ValueError:
@@ -2953,7 +2953,7 @@ class Subpath:
 
     def d(self, relative=None, smooth=None):
         segments = self._path._segments[self._start : self._end + 1]
-        return Path.svg_d(segments, relative=relative, smooth=None)
+        return Path.svg_d(segments, relative=relative, smooth=smooth)
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
-- 
2.43.0


From 953263bd3c211ba5d4bab82509cbd731627ae414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 019/102] fix: subpath indexing, slicing and additions stay
 within the subpath window

---
 svgio/path.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index f3557d9..2a1b4bf 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2814,23 +2814,29 @@ class Subpath:
         return self._path[self.index_to_path_index(index)]
 
     def __setitem__(self, index, value):
+        size = len(self._path)
         self._path[self.index_to_path_index(index)] = value
+        self._end += len(self._path) - size
 
     def __delitem__(self, index):
+        size = len(self._path)
         del self._path[self.index_to_path_index(index)]
-        self._end -= 1
+        self._end += len(self._path) - size
 
     def __iadd__(self, other):
+        size = len(self._path)
+        end = self._end + 1
         if isinstance(other, str):
             p = Path(other)
-            self._path[self._end : self._end] = p
+            self._path[end:end] = p
         elif isinstance(other, Path):
             p = copy(other)
-            self._path[self._end : self._end] = p
+            self._path[end:end] = p
         elif isinstance(other, PathSegment):
-            self._path.insert(self._end, other)
+            self._path.insert(end, other)
         else:
             return NotImplemented
+        self._end += len(self._path) - size
         return self
 
     def __add__(self, other):
@@ -2918,23 +2924,14 @@ class Subpath:
         return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
-        if index < 0:
-            return self._end + index + 1
-        else:
-            return self._start + index
+        return range(self._start, self._end + 1)[index]
 
     def index_to_path_index(self, index):
         if isinstance(index, slice):
-            start = index.start
-            stop = index.stop
-            step = index.step
-            if start is None:
-                start = 0
-            start = self._numeric_index(start)
-            if stop is None:
-                stop = len(self)
-            stop = self._numeric_index(stop)
-            return slice(start, stop, step)
+            start, stop, step = index.indices(len(self))
+            start += self._start
+            stop += self._start
+            return slice(start, stop if stop >= 0 else None, step)
         return self._numeric_index(index)
 
     def bbox(self):
-- 
2.43.0


From 114011b9bd4df49508599e2eaf2296cd57d3579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 020/102] fix: every list edit of a path relinks its
 connections and closes

---
 svgio/path.py | 56 ++++-----------------------------------------------
 1 file changed, 4 insertions(+), 52 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2a1b4bf..f1f3e16 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2064,26 +2064,12 @@ class Path(MutableSequence):
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            self._validate_connection(index)
-            if isinstance(new_element, Move):
-                self._validate_move(index)
-            if isinstance(new_element, Close):
-                self._validate_close(index)
+        self.validate_connections()
 
     def __delitem__(self, index):
-        original_element = self._segments[index]
         del self._segments[index]
         self._length = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            if isinstance(original_element, (Close, Move)):
-                self._validate_subpath(index)
+        self.validate_connections()
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2245,33 +2231,6 @@ class Path(MutableSequence):
         self._calc_lengths(error, min_depth)
         return self._length
 
-    def _validate_subpath(self, index):
-        """ensure the subpath containing this index is valid."""
-        if index < 0 or index + 1 >= len(self._segments):
-            return  # This connection doesn't exist.
-        for j in range(index, len(self._segments)):
-            close_search = self._segments[j]
-            if isinstance(close_search, Move):
-                return  # Not a closed path, subpath is valid.
-            if isinstance(close_search, Close):
-                for k in range(index, -1, -1):
-                    move_search = self._segments[k]
-                    if isinstance(move_search, Move):
-                        self._segments[j].end = Point(move_search.end)
-                        return
-                self._segments[j].end = Point(self._segments[0].end)
-                return
-
-    def _validate_move(self, index):
-        """ensure the next closed point from this index points to a valid location."""
-        for i in range(index + 1, len(self._segments)):
-            segment = self._segments[i]
-            if isinstance(segment, Move):
-                return  # Not a closed path, the move is valid.
-            if isinstance(segment, Close):
-                segment.end = Point(self._segments[index].end)
-                return
-
     def _validate_close(self, index):
         """ensure the close element at this position correctly links to the previous move"""
         for i in range(index, -1, -1):
@@ -2624,21 +2583,14 @@ class Path(MutableSequence):
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-        self._validate_connection(index - 1)
-        self._validate_connection(index)
-        if isinstance(value, Move):
-            self._validate_move(index)
-        if isinstance(value, Close):
-            self._validate_close(index)
+        self.validate_connections()
 
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
         self._length = None
-        index = len(self._segments) - 1
         self._segments.extend(iterable)
-        self._validate_connection(index)
-        self._validate_subpath(index)
+        self.validate_connections()
 
     def direct_close(self):
         """Forces close operations to be zero length by introducing a direct
-- 
2.43.0


From 9ee8ef7f7937b2a6c234df0cc0a843b5766e1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 021/102] fix: multiplying a subpath keeps it connected and
 discards remembered lengths

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index f1f3e16..e5729d4 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2816,6 +2816,10 @@ class Subpath:
         if isinstance(other, Matrix):
             for e in self:
                 e *= other
+            self._path._length = None
+            self._path._lengths = None
+            self._path._validate_connection(self._start - 1)
+            self._path._validate_connection(self._end)
         return self
 
     def __mul__(self, other):
-- 
2.43.0


From d34d2451476d6d51ab4a0fbaa65244a58f3d8301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 022/102] fix: paths multiply by a matrix like their segments
 and subpaths do

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index e5729d4..1b01907 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2051,6 +2051,10 @@ class Path(MutableSequence):
             self._lengths = None
         return self
 
+    __mul__ = __matmul__
+    __rmul__ = __matmul__
+    __imul__ = __imatmul__
+
     def __setitem__(self, index, new_element):
         if isinstance(new_element, str):
             new_element = Path(new_element)
-- 
2.43.0


From bd8ca03b3da00ae835da118b76ef044310b034ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 023/102] fix: reversing a subpath with nothing but its move or
 close leaves it as it is

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 1b01907..41ba9a2 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2914,6 +2914,8 @@ class Subpath:
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
+        if start > end:
+            return  # Nothing between the move and the close.
         segments = self._path._segments  # must avoid path validation.
         s = self.index_to_path_index(start)
         e = self.index_to_path_index(end)
-- 
2.43.0


From 3e366bad3c56d20d7042faa5d22f8e1c9d832e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 024/102] fix: reversing a subpath that is only a close does
 not raise

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 41ba9a2..319cf10 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2953,7 +2953,7 @@ class Subpath:
             if isinstance(self[0], Move):
                 self[0].end = Point(self[1].start)
         last = self[-1]
-        if isinstance(last, Close):
+        if isinstance(last, Close) and size > 1:
             last.reverse()
             if last.start != self[-2].end:
                 last.start = Point(self[-2].end)
-- 
2.43.0


From 62cdbd8549f95ed397b13db075c2f4927a7bc7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 025/102] fix: length equality compares the two lengths, not
 one with itself

---
 svgio/basic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 11887ce..3a4dcee 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -309,13 +309,13 @@ class Length(object):
         if self.amount == other.amount and self.units == other.units:
             return True
         if s is not None:
-            o = self.in_pixels()
-            if abs(s - o) <= ERROR:
+            o = other.in_pixels()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         s = self.in_inches()
         if s is not None:
-            o = self.in_inches()
-            if abs(s - o) <= ERROR:
+            o = other.in_inches()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         return False
 
-- 
2.43.0


From c95a01e3c0e18bcb2cca7d16c6381ebcc1a344ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 026/102] fix: points and picas convert to pixels like
 everywhere else

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3a4dcee..78afcb8 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -327,9 +327,9 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount / 1.3333
+            return self.amount * 1.3333
         if self.units == "pc":
-            return self.amount / 16.0
+            return self.amount * 16.0
         return None
 
     def in_inches(self):
-- 
2.43.0


From 80282af46e09824100b17447ee0c55488a746758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 027/102] fix: vmin and vmax take the viewbox width into
 account

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 78afcb8..952a90a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -463,13 +463,13 @@ class Length(object):
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = min(v.height, v.height)
+            m = min(v.width, v.height)
             return self.amount * m / 100.0
         if self.units == "vmax":
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = max(v.height, v.height)
+            m = max(v.width, v.height)
             return self.amount * m / 100.0
         try:
             return float(self)
-- 
2.43.0


From 6f6bfccb79e12e54f922f63c379513c224415daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 028/102] fix: transform lists read the ex unit

---
 svgio/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index d5c9d15..eaf72ed 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -118,7 +118,7 @@ PATTERN_WS = r"[\s\t\n]*"
 PATTERN_COMMA = r"(?:\s*,\s*|\s+|(?=-))"
 PATTERN_COMMAWSP = r"[ ,\t\n\x09\x0A\x0C\x0D]+"
 PATTERN_FLOAT = r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?"
-PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|cx|ch|rem|vw|vh|vmin|vmax"
+PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|ex|ch|rem|vw|vh|vmin|vmax"
 PATTERN_ANGLE_UNITS = "deg|grad|rad|turn"
 PATTERN_TIME_UNITS = "s|ms"
 PATTERN_FREQUENCY_UNITS = "Hz|kHz"
-- 
2.43.0


From 8b226944b7392f1698f47db35f5c4554424ab7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 029/102] fix: the keyword aliceblue is #f0f8ff

---
 svgio/basic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 952a90a..e7d395f 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -684,8 +684,6 @@ class Color(object):
             v = v.replace(" ", "").lower()
         if v == "transparent":
             return Color.rgb_to_int(0, 0, 0, 0.0)
-        if v == "aliceblue":
-            return Color.rgb_to_int(250, 248, 255)
         if v == "aliceblue":
             return Color.rgb_to_int(240, 248, 255)
         if v == "antiquewhite":
-- 
2.43.0


From bf950f1caefb1f7062ab38281768555fea57b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 030/102] fix: rgb() colours accept the fractional and out of
 range values their patterns match

---
 svgio/basic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index e7d395f..cf4ed9c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1006,9 +1006,9 @@ class Color(object):
     @staticmethod
     def parse_color_rgb(values):
         """Parse SVG Color, RGB value declarations """
-        r = int(values[0])
-        g = int(values[1])
-        b = int(values[2])
+        r = round(min(max(float(values[0]), 0), 255))
+        g = round(min(max(float(values[1]), 0), 255))
+        b = round(min(max(float(values[2]), 0), 255))
         if values[3] is not None:
             opacity = float(values[3])
         else:
@@ -1019,9 +1019,9 @@ class Color(object):
     def parse_color_rgbp(values):
         """Parse SVG color, RGB percent value declarations"""
         ratio = 255.0 / 100.0
-        r = round(float(values[0]) * ratio)
-        g = round(float(values[1]) * ratio)
-        b = round(float(values[2]) * ratio)
+        r = round(min(max(float(values[0]), 0), 100) * ratio)
+        g = round(min(max(float(values[1]), 0), 100) * ratio)
+        b = round(min(max(float(values[2]), 0), 100) * ratio)
         if values[3] is not None:
             opacity = float(values[3])
         else:
-- 
2.43.0


From 5b922905d705314b1174bb375a0796ad3ce61905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 031/102] fix: hsl() hues beyond one turn wrap around

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index cf4ed9c..4ee6c6e 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1032,7 +1032,7 @@ class Color(object):
     def parse_color_hsl(values):
         """Parse SVG color, HSL value declarations"""
         h = Angle.parse(values[0])
-        h = h.as_turns
+        h = h.as_turns % 1.0
         s = float(values[1]) / 100.0
         if s > 1:
             s = 1.0
-- 
2.43.0


From baea9829a8e9343d580d9f9405430e899e43a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 032/102] fix: setting hue, saturation, lightness or hsl takes
 degrees and keeps the opacity

---
 svgio/basic.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 4ee6c6e..ebbec71 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -558,18 +558,19 @@ class Color(object):
             self.argb = kwargs["argb"]
         if "rgba" in kwargs:
             self.rgba = kwargs["rgba"]
-        if "h" in kwargs:
-            self.hue = kwargs["h"]
-        if "s" in kwargs:
-            self.saturation = kwargs["s"]
-        if "l" in kwargs:
-            self.lightness = kwargs["l"]
-        if "hue" in kwargs:
-            self.hue = kwargs["hue"]
-        if "saturation" in kwargs:
-            self.saturation = kwargs["saturation"]
-        if "lightness" in kwargs:
-            self.lightness = kwargs["lightness"]
+        hue = kwargs.get("hue", kwargs.get("h"))
+        saturation = kwargs.get("saturation", kwargs.get("s"))
+        lightness = kwargs.get("lightness", kwargs.get("l"))
+        if hue is not None or saturation is not None or lightness is not None:
+            if self.value is None:
+                raise ValueError
+            # Set together, a black or gray color cannot remember a part of these.
+            h, s, l = self.hsl
+            self.hsl = (
+                h if hue is None else hue,
+                s if saturation is None else saturation,
+                l if lightness is None else lightness,
+            )
 
     def __int__(self):
         return self.value
@@ -1415,7 +1416,8 @@ class Color(object):
         h = value[0]
         s = value[1]
         l = value[2]
-        self.value = Color.hsl_to_int(h, s, l, 1.0)
+        opacity = 1.0 if self.value is None else self.opacity
+        self.value = Color.hsl_to_int(Angle.degrees(h).as_turns % 1.0, s, l, opacity)
 
     def distance_to(self, other):
         return Color.distance(self, other)
-- 
2.43.0


From f89477c1cea3b41638f2954903c94e7e797f6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 033/102] fix: Color.over accepts colour text

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index ebbec71..fbd0ba5 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1328,11 +1328,11 @@ class Color(object):
         Returns c1 over c2. This is the standard painter algorithm.
         """
         if isinstance(c1, str):
-            c1 = Color.parse(c1)
+            c1 = Color(c1)
         elif isinstance(c1, int):
             c1 = Color(c1)
         if isinstance(c2, str):
-            c2 = Color.parse(c2)
+            c2 = Color(c2)
         elif isinstance(c2, int):
             c2 = Color(c2)
         r1 = c1.red
-- 
2.43.0


From 8adb6d3c616d97048ebfb9d5e4a2d3c144e7ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 034/102] fix: colour distance shifts only the red and blue
 terms

---
 svgio/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index fbd0ba5..2f4e1c3 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1391,9 +1391,11 @@ class Color(object):
         r = c1.red - c2.red
         g = c1.green - c2.green
         b = c1.blue - c2.blue
-        return (((512 + red_mean) * r * r) >> 8) + 4 * g * g + (
-            (767 - red_mean) * b * b
-        ) >> 8
+        return (
+            (((512 + red_mean) * r * r) >> 8)
+            + 4 * g * g
+            + (((767 - red_mean) * b * b) >> 8)
+        )
 
     @staticmethod
     def crimp(v):
-- 
2.43.0


From 6caf2905b644c2538370d12dc7bca8743b2458ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 035/102] fix: a colour given as integer text stays within 32
 bits

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 2f4e1c3..d5fe60b 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -980,7 +980,7 @@ class Color(object):
         if v == "yellowgreen":
             return Color.rgb_to_int(154, 205, 50)
         try:
-            return int(v)
+            return int(v) & 0xFFFFFFFF
         except ValueError:
             return Color.rgb_to_int(0, 0, 0)
 
-- 
2.43.0


From 2206dcfaac80fadfca0dbe58ab4f56c91777a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 036/102] fix: distinct colours do not repeat after a cube
 number

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index d5fe60b..c5aadd9 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1058,6 +1058,8 @@ class Color(object):
 
         def _pattern(pattern: int):
             n = int(pattern ** (1.0 / 3.0))
+            if (n + 1) ** 3 <= pattern:  # The float root fell short of a whole number.
+                n += 1
             pattern -= n * n * n
             p = [n] * 3
             if pattern == 0:
-- 
2.43.0


From 5e1f55696e490e12288bbbf11e1aaf1a6b633353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 037/102] fix: angles compare equal across the full turn, and
 != is the opposite of ==

---
 svgio/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index c5aadd9..d051741 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1844,8 +1844,11 @@ class Angle(float):
 
     def __eq__(self, other):
         # Python 2
-        c1 = abs((self % tau) - (other % tau)) <= 1e-11
-        return c1
+        c1 = abs((self % tau) - (other % tau))
+        return min(c1, tau - c1) <= 1e-11
+
+    def __ne__(self, other):
+        return not self == other
 
     def normalized(self):
         return Angle(self % tau)
-- 
2.43.0


From 599617000d1e8b1c2769e7239305a3ccd2734e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 038/102] fix: as_positive_degrees terminates for angles of
 many turns

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index d051741..9039563 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1899,8 +1899,8 @@ class Angle(float):
     @property
     def as_positive_degrees(self):
         v = self.as_degrees
-        while v < 0:
-            v += 360.0
+        if v < 0:
+            v %= 360.0
         return v
 
     @property
-- 
2.43.0


From 57a3a5153bfb7d466eebfe9dac89d92544df2438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 039/102] fix: is_orthogonal recognises every quarter turn
 despite rounding

---
 svgio/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 9039563..00f8b32 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1912,7 +1912,8 @@ class Angle(float):
         return self / tau
 
     def is_orthogonal(self):
-        return (self % (tau / 4.0)) == 0
+        v = self % (tau / 4.0)
+        return min(v, tau / 4.0 - v) <= 1e-11
 
 
 class Matrix:
-- 
2.43.0


From 2e566e8c3cfe9a1d90fecf5d3725084d874ca6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 040/102] fix: transform functions with a wrong number of
 parameters raise ValueError

---
 svgio/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 00f8b32..e74933a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2094,6 +2094,12 @@ class Matrix:
             name = sub_element[0]
             params = tuple(REGEX_TRANSFORM_PARAMETER.findall(sub_element[1]))
             params = [mag + units for mag, units in params]
+            if name != SVG_TRANSFORM_TRANSLATE and len(params) == 0:
+                raise ValueError("%s requires parameters." % name)
+            if name == SVG_TRANSFORM_MATRIX and len(params) != 6:
+                raise ValueError("matrix requires six parameters.")
+            if name == SVG_TRANSFORM_SCALE and len(params) > 4:
+                raise ValueError("scale has too many parameters.")
             if SVG_TRANSFORM_MATRIX == name:
                 params = map(float, params)
                 self.pre_cat(*params)
-- 
2.43.0


From 8df8bed4bc43bc2d3f96f175ffdea6e0af78c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 041/102] fix: preserveAspectRatio allows any whitespace around
 its parts

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index e74933a..cbc1537 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2638,7 +2638,7 @@ class Viewbox:
         ):
             return ""
         if aspect is not None:
-            aspect_slice = aspect.split(" ")
+            aspect_slice = aspect.split()
             try:
                 align = aspect_slice[0]
             except IndexError:
-- 
2.43.0


From 587c8e3e7cbb818c0f37189a6fdcc757c944dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 042/102] fix: convex_hull terminates and is convex for ties,
 duplicates and collinear points

---
 svgio/basic.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index cbc1537..eec857d 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1792,21 +1792,26 @@ class Point:
     def convex_hull(pts):
         if len(pts) == 0:
             return
-        points = sorted(set(pts), key=lambda p: p[0])
-        first_point_on_hull = points[0]
-        point_on_hull = first_point_on_hull
-        while True:
-            yield point_on_hull
-            endpoint = point_on_hull
-            for t in points:
-                if (
-                    point_on_hull is endpoint
-                    or Point.orientation(point_on_hull, t, endpoint) == 2
-                ):
-                    endpoint = t
-            point_on_hull = endpoint
-            if first_point_on_hull is point_on_hull:
-                break
+        points = []
+        for t in sorted(pts, key=lambda p: (p[0], p[1])):
+            if not points or t[0] != points[-1][0] or t[1] != points[-1][1]:
+                points.append(t)
+        if len(points) == 1:
+            yield points[0]
+            return
+
+        def chain(pts):
+            hull = []
+            for t in pts:
+                while len(hull) > 1 and Point.orientation(hull[-2], hull[-1], t) != 2:
+                    hull.pop()
+                hull.append(t)
+            return hull[:-1]
+
+        for t in chain(points):
+            yield t
+        for t in chain(reversed(points)):
+            yield t
 
     @staticmethod
     def distance(p1, p2):
-- 
2.43.0


From 8b5695e5f6771749e6a242f24fac95916f896e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 043/102] fix: path commands missing a number or an arc flag
 raise ValueError

---
 svgio/path.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 319cf10..b97e18c 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -176,25 +176,35 @@ class PathLexicalParser:
             elif cmd == "h":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "H":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=False)
                     if not self._more():
                         break
             elif cmd == "v":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "V":
-                while self._more():
+                while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=False)
+                    if not self._more():
+                        break
             elif cmd == "c":
                 while True:
                     coord1, coord2, coord3 = (
@@ -318,6 +328,8 @@ class PathLexicalParser:
                         self._flag(),
                         self._coord(),
                     )
+                    if sweep is None:
+                        raise ValueError
                     if coord is None:
                         coord = self.inline_close
                         if coord is None:
-- 
2.43.0


From f564b5cf8458eefac01f4aea430bb81e92f07c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 044/102] fix: path data that needs a current point or a
 subpath start it lacks raises ValueError

---
 svgio/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index b97e18c..e3000af 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -63,6 +63,8 @@ class PathLexicalParser:
             kind = match.lastgroup
             if kind == "CLOSE":
                 # Inline Close
+                if self.parser.z_point is None:
+                    raise ValueError  # There is nothing to close to.
                 self.inline_close = match.group()
                 return None
             self.pos = match.end()
@@ -111,7 +113,9 @@ class PathLexicalParser:
             cmd = self._command()
             if cmd is None:
                 return
-            elif cmd == "z" or cmd == "Z":
+            if cmd in "HhVvSsTtAa" and self.parser.current_point is None:
+                raise ValueError  # There is nothing to draw from.
+            if cmd == "z" or cmd == "Z":
                 if self._more():
                     raise ValueError
                 self.parser.closed(relative=cmd.islower())
-- 
2.43.0


From 25e482a287e6b82ff567615e5dc041ab93c4e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 045/102] fix: Node.xml works on Python versions without
 cElementTree

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deee891..d632a08 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -69,7 +69,7 @@ class Node(list):
         return self._name().lower()
 
     def xml(self, context=None):
-        from xml.etree.cElementTree import Element, SubElement, tostring
+        from xml.etree.ElementTree import Element, SubElement, tostring
 
         if context is None:
             context = Element(self.tag())
-- 
2.43.0


From 946e4d5ba447a039fc3a963b0d76a7789e3d6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 046/102] fix: defs, symbol, marker, switch, style, metadata
 and gradient nodes can be created

---
 svgio/nodes.py | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d632a08..90c55e5 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1802,9 +1802,6 @@ class Title(DescriptiveElement, Element):
 
 
 class Metadata(DescriptiveElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1860,25 +1857,16 @@ class SVG(Group, ContainerElement, StructuralElement):
 
 
 class Defs(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Symbol(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Marker(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1909,17 +1897,11 @@ class Use(StructuralElement, Element):
 
 
 class Switch(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Style(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1951,17 +1933,11 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 5698ec9a28e026241e996fece08c9a3402a29a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 047/102] fix: mask and image nodes are initialised as nodes

---
 svgio/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 90c55e5..ea511b9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1391,7 +1391,7 @@ class ClipPath(Element):
         return self.__class__.__name__
 
 
-class Mask(ContainerElement):
+class Mask(ContainerElement, Element):
     # maskContentUnits
     # maskUnits
 
@@ -1639,7 +1639,8 @@ class Image(Element, GraphicalElement, Transformable):
     which are quite useful and would be ideal for reading the linked or contained data.
     """
 
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         self.image = None
         self.image_width = None
         self.image_height = None
-- 
2.43.0


From 72e44e7370102533df9ef38f10ebb177222547e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 048/102] fix: clipPath, gradient and switch tags load as their
 nodes

---
 svgio/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ea511b9..131007b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -2305,9 +2305,13 @@ BOOTSTRAP = {
     "title": Title,
     "desc": Desc,
     "metadata": Metadata,
+    "clipPath": ClipPath,
     "clip-path": ClipPath,
     "mask": Mask,
+    "switch": Switch,
+    "linearGradient": LinearGradient,
     "lineargradient": LinearGradient,
+    "radialGradient": RadialGradient,
     "radialgradient": RadialGradient,
     "pattern": Pattern,
 }
-- 
2.43.0


From 6e9ad28293f033ac3771822abcc64f373a04369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 049/102] fix: hyperlink, clipPath and gradient nodes are saved
 under their SVG tags

---
 svgio/nodes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 131007b..fdce092 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1385,7 +1385,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clip-path"
+        return "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1921,6 +1921,9 @@ class Script(Element):
 
 
 class Hyperlink(ContainerElement, Element):
+    def tag(self):
+        return "a"
+
     @property
     def href(self):
         values = Document.get_values(self)
@@ -1934,11 +1937,17 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
+    def tag(self):
+        return "linearGradient"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
+    def tag(self):
+        return "radialGradient"
+
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From 1ae3ed642c2eea96680876f59386253c66d66edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 050/102] fix: loaded nodes are saved under the tag they were
 loaded with

---
 svgio/nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index fdce092..24400ec 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -44,6 +44,7 @@ class Node(list):
         super().__init__()
         self.document = None
         self.parent = None
+        self._source_tag = None
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -66,15 +67,18 @@ class Node(list):
             return object.__getattribute__(self, name)
 
     def tag(self):
+        if self._source_tag is not None:
+            return self._source_tag
         return self._name().lower()
 
     def xml(self, context=None):
         from xml.etree.ElementTree import Element, SubElement, tostring
 
+        tag = self._source_tag if self._source_tag is not None else self.tag()
         if context is None:
-            context = Element(self.tag())
+            context = Element(tag)
         else:
-            context = SubElement(context, self.tag())
+            context = SubElement(context, tag)
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
@@ -91,7 +95,7 @@ class Node(list):
             if event == "start":
                 tag = elem.tag
                 try:
-                    if tag.startswith("{http://www.w3.org/2000/svg"):
+                    if tag.startswith("{http://www.w3.org/2000/svg}"):
                         tag = tag[
                             28:
                         ]  # Removing namespace. http://www.w3.org/2000/svg:
@@ -109,6 +113,7 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
+                node._source_tag = tag
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
-- 
2.43.0


From 754b6c58c6f72647875762e3108a74f234477554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 051/102] fix: character data of loaded elements is kept and
 saved

---
 svgio/nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 24400ec..2242fd2 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -45,6 +45,8 @@ class Node(list):
         self.document = None
         self.parent = None
         self._source_tag = None
+        self.character_data = None  # Text before the first child.
+        self.character_tail = None  # Text following this node within its parent.
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -82,8 +84,10 @@ class Node(list):
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
+        context.text = self.character_data
         for c in self:
             c.xml(context)
+            context[-1].tail = c.character_tail
         return tostring(context, encoding="unicode")
 
     def parse(self, source):
@@ -126,6 +130,9 @@ class Node(list):
                     ] = node  # store node value in defs.
             elif event == "end":
                 # event is 'end', pop values.
+                node.character_data = elem.text
+                for child, child_elem in zip(node, elem):
+                    child.character_tail = child_elem.tail
                 node = node.parent  # Parent is now node.
 
     @property
-- 
2.43.0


From 732cc1f24210fe8617ad1797f15c2d0318753282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 052/102] fix: text nodes print as their XML instead of failing
 on attributes they lack

---
 svgio/nodes.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 2242fd2..7240c15 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1539,24 +1539,6 @@ class Text(TextContentElement, Element, GraphicalElement, Transformable):
     #
     #     self.path = None
 
-    def __str__(self):
-        parts = list()
-        parts.append("'%s'" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
-    def __repr__(self):
-        parts = list()
-        parts.append("%s" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
     @property
     def x(self):
         values = Document.get_values(self)
-- 
2.43.0


From 666ac7df9860a263b172b64f18e090cee4743cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 053/102] fix: Document.write saves the document's XML

---
 svgio/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 7240c15..1bdf4b6 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -465,8 +465,9 @@ class Document(Node):
         self.parse(filename)
 
     def write(self, filename):
-        with io.open(filename, mode="w") as output:
-            output.write(str(self))
+        with io.open(filename, mode="w", encoding="utf-8") as output:
+            for node in self:
+                output.write(node.xml())
 
     def render(self):
         pass
-- 
2.43.0


From 31d1e03dc7413fbb91fb57460618a3c6f3b2be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 054/102] fix: siblings are found by identity,
 previous_element_sibling is the previous one

---
 svgio/nodes.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 1bdf4b6..f9e8a4c 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -169,6 +169,14 @@ class Node(list):
         else:
             return None
 
+    def _sibling_index(self):
+        # Siblings may be equal, list.index() would find the first such one.
+        if self.parent is not None:
+            for index, node in enumerate(self.parent):
+                if node is self:
+                    return index
+        return None
+
     @property
     def next_sibling(self):
         """
@@ -176,11 +184,10 @@ class Node(list):
         returns null if the specified node is the last child in the parent element.
         :return:
         """
-        try:
-            index = self.parent.index(self)
-            return self.parent[index + 1]
-        except (AttributeError, IndexError):
+        index = self._sibling_index()
+        if index is None or index + 1 >= len(self.parent):
             return None
+        return self.parent[index + 1]
 
     @property
     def node_type(self):
@@ -220,13 +227,10 @@ class Node(list):
         null if the specified node is the first in that list.
         :return:
         """
-        try:
-            index = self.parent.index(self)
-            if index == 0:
-                return None
-            return self.parent[index - 1]
-        except (AttributeError, IndexError):
+        index = self._sibling_index()
+        if index is None or index == 0:
             return None
+        return self.parent[index - 1]
 
     @property
     def text_content(self):
@@ -388,7 +392,7 @@ class Element(Node):
 
     @property
     def previous_element_sibling(self):
-        return self.next_sibling
+        return self.previous_sibling
 
     @property
     def shadow_root(self):
-- 
2.43.0


From 893cdc539aa5bc563af4e55b4f33fb238b51c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 055/102] fix: stroke with a stroke-opacity does not recurse
 endlessly

---
 svgio/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index f9e8a4c..f7c4fef 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -552,11 +552,11 @@ class GraphicalElement:
         stroke_opacity = values.get(SVG_ATTR_STROKE_OPACITY)
         if (
             stroke_opacity is not None
-            and self.stroke is not None
-            and self.stroke.value is not None
+            and stroke is not None
+            and stroke.value is not None
         ):
             try:
-                self.stroke.opacity = float(stroke_opacity)
+                stroke.opacity = float(stroke_opacity)
             except ValueError:
                 pass
         return stroke
-- 
2.43.0


From 4fea5241cef513144c307bb3739a2d5e149e84e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 056/102] fix: a circle takes its centre and radius as
 positional arguments

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index f7c4fef..72ae57b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1098,8 +1098,8 @@ class Circle(_RoundShape):
 
     def __init__(self, *args, **kwargs):
         try:
-            kwargs[SVG_ATTR_X] = args[0]
-            kwargs[SVG_ATTR_Y] = args[1]
+            kwargs[SVG_ATTR_CENTER_X] = args[0]
+            kwargs[SVG_ATTR_CENTER_Y] = args[1]
             kwargs[SVG_ATTR_RADIUS] = args[2]
         except IndexError:
             pass
-- 
2.43.0


From f0cb09bec26c4fe0b748dfa4957cc886d11afcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 057/102] fix: factory calls return the new node and register
 its id

---
 svgio/nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 72ae57b..4bba88f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -410,6 +410,9 @@ class ElementBuilder:
         node.document = self.document
         node.parent = self.parent
         self.parent.append(node)
+        if self.document is not None and SVG_ATTR_ID in node.attributes:
+            self.document.objects[node.attributes[SVG_ATTR_ID]] = node
+        return node
 
 
 class Document(Node):
-- 
2.43.0


From d331c4f598a32945d213fe8cd13e33b56f07d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 058/102] fix: is_equal_node compares type, tag, attributes and
 children

---
 svgio/nodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 4bba88f..d5bc547 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -288,7 +288,13 @@ class Node(list):
         and so on. The specific set of data points that must match varies depending on the types of the nodes.
         :return:
         """
-        return self == node
+        return (
+            type(self) is type(node)
+            and self.tag() == node.tag()
+            and self.attributes == node.attributes
+            and len(self) == len(node)
+            and all(a.is_equal_node(b) for a, b in zip(self, node))
+        )
 
     def is_same_node(self, node):
         """
-- 
2.43.0


From 77c9ba533c5680fd7e98f4c4b4bf17d4ea4d9d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 059/102] fix: writing a point keeps exponents that end in a
 zero

---
 svgio/basic.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index eec857d..4a8ee3a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1531,11 +1531,7 @@ class Point:
             x_str = "%.12G" % self.x
         except TypeError:
             return self.__repr__()
-        if "." in x_str:
-            x_str = x_str.rstrip("0").rstrip(".")
         y_str = "%.12G" % self.y
-        if "." in y_str:
-            y_str = y_str.rstrip("0").rstrip(".")
         return "%s,%s" % (x_str, y_str)
 
     def __imul__(self, other):
-- 
2.43.0


From 7f9b75ee31d36955399a5a3e442f09de1309401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 060/102] fix: reversing a closed subpath relinks the move that
 follows it

---
 svgio/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/path.py b/svgio/path.py
index e3000af..b0d2e94 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2975,4 +2975,5 @@ class Subpath:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
+            self._path._validate_connection(self._end)
         return self
-- 
2.43.0


From ac7ff17acb967459d2569a3a85aefb17628eed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:52 +0000
Subject: [PATCH 061/102] fix: empty backward slices of a subpath are empty

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index b0d2e94..7d4058f 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2905,6 +2905,8 @@ class Subpath:
     def index_to_path_index(self, index):
         if isinstance(index, slice):
             start, stop, step = index.indices(len(self))
+            if step < 0 and start <= stop:
+                start = stop = 0  # Nothing selected, a start of -1 would wrap around.
             start += self._start
             stop += self._start
             return slice(start, stop if stop >= 0 else None, step)
-- 
2.43.0


From 7352101c4ca1778b5a71b061a1f90e33b53f967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 062/102] fix: cubic lengths are exact to the requested error
 when the curve folds back

Quadrature and the chord bisection both missed the part of a curve between a (near) cusp and
the neighbouring sample, so the length of folded and of straight cubics running back on
themselves was off by far more than the requested error. Integration is split at the places
where the curve is slowest.
---
 svgio/path.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 7d4058f..e63db29 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1,3 +1,5 @@
+from cmath import sqrt as complex_sqrt
+
 from .constants import *
 from .basic import *
 
@@ -1070,6 +1072,27 @@ class CubicBezier(Curve):
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
+    def _slowest(self):
+        """
+        Parameters within the curve where it is slowest, being near a cusp. The real parts of the roots of the
+        (complex) derivative a t^2 + b t + c.
+        """
+        p0 = complex(*self.start)
+        p1 = complex(*self.control1)
+        p2 = complex(*self.control2)
+        p3 = complex(*self.end)
+        a = p3 - 3 * p2 + 3 * p1 - p0
+        b = 2 * (p2 - 2 * p1 + p0)
+        c = p1 - p0
+        root = complex_sqrt(b * b - 4 * a * c)
+        q = -(b + root) / 2 if abs(b + root) >= abs(b - root) else -(b - root) / 2
+        roots = []
+        if a != 0:
+            roots.append((q / a).real)
+        if q != 0:
+            roots.append((c / q).real)
+        return sorted(t for t in roots if 0 < t < 1)
+
     def _length_scipy(self, error=ERROR):
         from scipy.integrate import quad
 
@@ -1085,10 +1108,18 @@ class CubicBezier(Curve):
                 + 3 * (p3 - p2) * t ** 2
             )
 
-        return quad(_abs_derivative, 0.0, 1.0, epsabs=error, limit=1000)[0]
+        splits = [0.0] + self._slowest() + [1.0]
+        return sum(
+            quad(_abs_derivative, s, e, epsabs=error, limit=1000)[0]
+            for s, e in zip(splits, splits[1:])
+        )
 
     def _length_default(self, error=ERROR, min_depth=MIN_DEPTH):
-        return self._line_length(0, 1, error, min_depth)
+        splits = [0.0] + self._slowest() + [1.0]
+        return sum(
+            self._line_length(s, e, error, min_depth)
+            for s, e in zip(splits, splits[1:])
+        )
 
     def length(self, error=ERROR, min_depth=MIN_DEPTH):
         """Calculate the length of the path up to a certain position"""
-- 
2.43.0


From b8b4c1f277bdf3d4fcce1e95659b4fcb763125ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 063/102] fix: Arc keywords with a rotation are not mistaken
 for the complex radius form

Arc(start=, end=, center=, rx=, ry=, rotation=) has six keywords, one of them the rotation, and
failed with a TypeError. The complex form is the one with a radius.
---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index e63db29..57b4e6f 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1209,7 +1209,7 @@ class Arc(Curve):
         if len(args) == 6 and isinstance(args[1], complex):
             self._svg_complex_parameterize(*args)
             return
-        elif len(kwargs) == 6 and "rotation" in kwargs:
+        elif len(kwargs) == 6 and "rotation" in kwargs and "radius" in kwargs:
             self._svg_complex_parameterize(**kwargs)
             return
         elif len(args) == 7:
-- 
2.43.0


From dae80c4df75a66d19a85ef2230059824d02a7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 064/102] fix: quadratic arc approximations pass through the
 middle of their slice

The control point was placed by a formula for cubic control points, which left the middle of every
quadratic off the arc by slice^2/48 of the radius (0.6% for the default slices), an error of second
order where a quadratic can have one of fourth order.
---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 57b4e6f..c9ecf7e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1756,7 +1756,7 @@ class Arc(Curve):
                 p_end = self.end
             cos_mid_t = cos(mid_t)
             sin_mid_t = sin(mid_t)
-            alpha = (4.0 - cos(t_slice)) / 3.0
+            alpha = 2.0 - cos(t_slice / 2.0)
             px = cx + alpha * (a * cos_mid_t * cos_theta - b * sin_mid_t * sin_theta)
             py = cy + alpha * (a * cos_mid_t * sin_theta + b * sin_mid_t * cos_theta)
             yield QuadraticBezier(p_start, (px, py), p_end)
-- 
2.43.0


From 76c9435a9cc377afb788a9d75cf851fc3a52ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 065/102] fix: npoint of an empty path is None without numpy
 too

---
 svgio/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c9ecf7e..c2b5bdc 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2204,14 +2204,14 @@ class Path(MutableSequence):
         """
         Find a points between 0 and 1 within the shape. Numpy acceleration allows points to be an array of floats.
         """
+        segments = self.segments(False)
+        if len(segments) == 0:
+            return None
         try:
             import numpy as np
         except ImportError:
             return [self.point(pos) for pos in positions]
 
-        segments = self.segments(False)
-        if len(segments) == 0:
-            return None
         positions = np.asarray(positions, dtype=float)
         # Shortcuts
         if self._length is None:
-- 
2.43.0


From c4f9fe48cc112506fbb120351e63212f8310041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 066/102] fix: npoint honours the requested error without numpy
 too

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index c2b5bdc..3fb282e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2210,7 +2210,7 @@ class Path(MutableSequence):
         try:
             import numpy as np
         except ImportError:
-            return [self.point(pos) for pos in positions]
+            return [self.point(pos, error=error) for pos in positions]
 
         positions = np.asarray(positions, dtype=float)
         # Shortcuts
-- 
2.43.0


From 7aa02e4074ca78edc8eb0dd58cfc5af6c247387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 067/102] fix: a transform text times a matrix is their product

The reflected product copied the text and failed with an AttributeError.
---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 4a8ee3a..7183732 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2000,7 +2000,7 @@ class Matrix:
         return m
 
     def __rmatmul__(self, other):
-        m = copy(other)
+        m = Matrix(other) if isinstance(other, str) else copy(other)
         m.__imatmul__(self)
         return m
 
-- 
2.43.0


From 3d66243a41ef55079bd2bcdfe0e2bfd32fa6084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 068/102] fix: lengths in transform text are resolved where
 they occur when the context is given

---
 svgio/basic.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 7183732..8bb9907 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1945,7 +1945,7 @@ class Matrix:
         elif len_args == 1:
             m = components[0]
             if isinstance(m, str):
-                self.parse(m)
+                self.parse(m, **kwargs)
                 self.render(**kwargs)
             else:
                 self.a = m[0]
@@ -2072,7 +2072,7 @@ class Matrix:
             self.f,
         )
 
-    def parse(self, transform_str):
+    def parse(self, transform_str, **kwargs):
         """Parses the svg transform string.
 
         Transforms from SVG 1.1 have a smaller complete set of operations. Whereas in SVG 2.0 they gain
@@ -2084,12 +2084,22 @@ class Matrix:
         2D CSS distances have length/percentages: "px", "cm", "mm", "in", "pt", etc. (+|-)?d+%
 
         In the case of percentages there must be a known height and width to properly create a matrix out of that.
+        Values given here, as for render(), resolve the lengths as they are read.
 
         """
         if not transform_str:
             return
         if not isinstance(transform_str, str):
             raise TypeError("Must provide a string to parse")
+        relative_length = kwargs.pop("relative_length", None)
+        width = kwargs.pop("width", None)
+        height = kwargs.pop("height", None)
+        kwargs_x = dict(
+            kwargs, relative_length=relative_length if width is None else width
+        )
+        kwargs_y = dict(
+            kwargs, relative_length=relative_length if height is None else height
+        )
 
         for sub_element in REGEX_TRANSFORM_TEMPLATE.findall(transform_str.lower()):
             name = sub_element[0]
@@ -2106,18 +2116,18 @@ class Matrix:
                 self.pre_cat(*params)
             elif SVG_TRANSFORM_TRANSLATE == name:
                 try:
-                    x_param = Length(params[0]).value()
+                    x_param = Length(params[0]).value(**kwargs_x)
                 except IndexError:
                     continue
                 try:
-                    y_param = Length(params[1]).value()
+                    y_param = Length(params[1]).value(**kwargs_y)
                     self.pre_translate(x_param, y_param)
                 except IndexError:
                     self.pre_translate(x_param)
             elif SVG_TRANSFORM_TRANSLATE_X == name:
-                self.pre_translate(Length(params[0]).value(), 0)
+                self.pre_translate(Length(params[0]).value(**kwargs_x), 0)
             elif SVG_TRANSFORM_TRANSLATE_Y == name:
-                self.pre_translate(0, Length(params[0]).value())
+                self.pre_translate(0, Length(params[0]).value(**kwargs_y))
             elif SVG_TRANSFORM_SCALE == name:
                 params = map(float, params)
                 self.pre_scale(*params)
@@ -2128,12 +2138,12 @@ class Matrix:
             elif SVG_TRANSFORM_ROTATE == name:
                 angle = Angle.parse(params[0])
                 try:
-                    x_param = Length(params[1]).value()
+                    x_param = Length(params[1]).value(**kwargs_x)
                 except IndexError:
                     self.pre_rotate(angle)
                     continue
                 try:
-                    y_param = Length(params[2]).value()
+                    y_param = Length(params[2]).value(**kwargs_y)
                     self.pre_rotate(angle, x_param, y_param)
                 except IndexError:
                     self.pre_rotate(angle, x_param)
@@ -2144,36 +2154,36 @@ class Matrix:
                 except IndexError:  # this isn't valid.
                     continue
                 try:
-                    x_param = Length(params[2]).value()
+                    x_param = Length(params[2]).value(**kwargs_x)
                 except IndexError:
                     self.pre_skew(angle_a, angle_b)
                     continue
                 try:
-                    y_param = Length(params[3]).value()
+                    y_param = Length(params[3]).value(**kwargs_y)
                     self.pre_skew(angle_a, angle_b, x_param, y_param)
                 except IndexError:
                     self.pre_skew(angle_a, angle_b, x_param)
             elif SVG_TRANSFORM_SKEW_X == name:
                 angle_a = Angle.parse(params[0])
                 try:
-                    x_param = Length(params[1]).value()
+                    x_param = Length(params[1]).value(**kwargs_x)
                 except IndexError:
                     self.pre_skew_x(angle_a)
                     continue
                 try:
-                    y_param = Length(params[2]).value()
+                    y_param = Length(params[2]).value(**kwargs_y)
                     self.pre_skew_x(angle_a, x_param, y_param)
                 except IndexError:
                     self.pre_skew_x(angle_a, x_param)
             elif SVG_TRANSFORM_SKEW_Y == name:
                 angle_b = Angle.parse(params[0])
                 try:
-                    x_param = Length(params[1]).value()
+                    x_param = Length(params[1]).value(**kwargs_x)
                 except IndexError:
                     self.pre_skew_y(angle_b)
                     continue
                 try:
-                    y_param = Length(params[2]).value()
+                    y_param = Length(params[2]).value(**kwargs_y)
                     self.pre_skew_y(angle_b, x_param, y_param)
                 except IndexError:
                     self.pre_skew_y(angle_b, x_param)
-- 
2.43.0


From b58082ceca726e988e26d86eaf1d180eb5a427d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 069/102] fix: skew() with one angle skews along x as CSS
 defines

---
 svgio/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 8bb9907..9a7b4dc 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2151,7 +2151,8 @@ class Matrix:
                 angle_a = Angle.parse(params[0])
                 try:
                     angle_b = Angle.parse(params[1])
-                except IndexError:  # this isn't valid.
+                except IndexError:
+                    self.pre_skew(angle_a)
                     continue
                 try:
                     x_param = Length(params[2]).value(**kwargs_x)
-- 
2.43.0


From 397b777d05f74c06cb2d90cf9f6b0c049879eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 070/102] fix: colour functions and none are read in any letter
 case and surrounding space

---
 svgio/basic.py     | 4 +++-
 svgio/constants.py | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 9a7b4dc..a9ed3f5 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -660,7 +660,9 @@ class Color(object):
     @staticmethod
     def parse(color_string):
         """Parse SVG color, will return a set value."""
-        if color_string is None or color_string == SVG_VALUE_NONE:
+        if isinstance(color_string, str):
+            color_string = color_string.strip()
+        if color_string is None or color_string.lower() == SVG_VALUE_NONE:
             return None
         match = REGEX_COLOR_HEX.match(color_string)
         if match:
diff --git a/svgio/constants.py b/svgio/constants.py
index eaf72ed..78f2d9d 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -165,15 +165,18 @@ REGEX_TRANSFORM_PARAMETER = re.compile(
 REGEX_COLOR_HEX = re.compile(r"^#?([0-9A-Fa-f]{3,8})$")
 REGEX_COLOR_RGB = re.compile(
     r"rgba?\(\s*(%s)\s*,\s*(%s)\s*,\s*(%s)\s*(?:,\s*(%s)\s*)?\)"
-    % (PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT)
+    % (PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT),
+    re.IGNORECASE,
 )
 REGEX_COLOR_RGB_PERCENT = re.compile(
     r"rgba?\(\s*(%s)%%\s*,\s*(%s)%%\s*,\s*(%s)%%\s*(?:,\s*(%s)\s*)?\)"
-    % (PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT)
+    % (PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT),
+    re.IGNORECASE,
 )
 REGEX_COLOR_HSL = re.compile(
     r"hsla?\(\s*(%s)\s*,\s*(%s)%%\s*,\s*(%s)%%\s*(?:,\s*(%s)\s*)?\)"
-    % (PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT)
+    % (PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT, PATTERN_FLOAT),
+    re.IGNORECASE,
 )
 REGEX_LENGTH = re.compile(r"(%s)([A-Za-z%%]*)" % PATTERN_FLOAT)
 REGEX_CSS_STYLE = re.compile(r"([^{]+)\s*\{\s*([^}]+)\s*\}")
-- 
2.43.0


From fdb6adf1544239a043b57eac411e331a07f52372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:51 +0000
Subject: [PATCH 071/102] fix: text with ids can be loaded into a node without
 a document

---
 svgio/nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d5bc547..68ededc 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -124,7 +124,9 @@ class Node(list):
 
                 siblings.append(node)  # siblings now includes this node.
 
-                if SVG_ATTR_ID in attributes:  # If we have an ID, we save the node.
+                if (
+                    document is not None and SVG_ATTR_ID in attributes
+                ):  # If we have an ID, we save the node.
                     document.objects[
                         attributes[SVG_ATTR_ID]
                     ] = node  # store node value in defs.
-- 
2.43.0


From 51ed8e8e60703fef9f601540755a1d9b67cf602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 072/102] fix: adding a segment to a subpath does not share the
 segment

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 3fb282e..d7d1e48 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2845,7 +2845,7 @@ class Subpath:
     def __add__(self, other):
         if isinstance(other, (str, Path, PathSegment)):
             n = copy(self)
-            n += other
+            n += copy(other)
             return n
         return NotImplemented
 
-- 
2.43.0


From dae3e4a6a002b8e6a99747ca1451d035da61da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 073/102] fix: copies of a matrix do not share its lengths

---
 svgio/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index a9ed3f5..fe17e15 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1954,8 +1954,8 @@ class Matrix:
                 self.b = m[1]
                 self.c = m[2]
                 self.d = m[3]
-                self.e = m[4]
-                self.f = m[5]
+                self.e = copy(m[4])
+                self.f = copy(m[5])
         else:
             self.a = components[0]
             self.b = components[1]
@@ -2057,7 +2057,7 @@ class Matrix:
         )
 
     def __copy__(self):
-        return Matrix(self.a, self.b, self.c, self.d, self.e, self.f)
+        return Matrix(self.a, self.b, self.c, self.d, copy(self.e), copy(self.f))
 
     def __str__(self):
         """
-- 
2.43.0


From 8c9fb0f4add505b6402140b1df6944bf91db89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 074/102] fix: comparing matrices whose translations have
 different units

---
 svgio/basic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index fe17e15..66f4ae2 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1983,10 +1983,12 @@ class Matrix:
             return False
         if abs(self.d - other.d) > 1e-12:
             return False
-        if self.e != other.e and abs(self.e - other.e) > 1e-12:
-            return False
-        if self.f != other.f and abs(self.f - other.f) > 1e-12:
-            return False
+        for s, o in ((self.e, other.e), (self.f, other.f)):
+            if s != o:
+                if isinstance(s, Length) or isinstance(o, Length):
+                    return False
+                if abs(s - o) > 1e-12:
+                    return False
         return True
 
     def __len__(self):
-- 
2.43.0


From 73f55ae194c20adacbf2dbeb01b0c0d221b1d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 075/102] fix: arcs with complementary sweeps are not equal

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d7d1e48..aa81920 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1443,7 +1443,12 @@ class Arc(Curve):
             and self.prx == other.prx
             and self.pry == other.pry
             and self.center == other.center
-            and self.sweep == other.sweep
+            and (
+                self.sweep == other.sweep
+                if self.sweep is None or other.sweep is None
+                # Angles are equal modulo a full turn, sweeps are not.
+                else abs(float(self.sweep) - float(other.sweep)) <= 1e-11
+            )
         )
 
     def __ne__(self, other):
-- 
2.43.0


From 3239efc1c3d5dfe6b63d07fa1140f12795cf89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 076/102] fix: repr of an absent length evaluates to it

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 66f4ae2..806a61d 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -288,6 +288,8 @@ class Length(object):
     __rmul__ = __mul__
 
     def __repr__(self):
+        if self.amount is None:
+            return "Length(None)"
         return "Length('%s')" % (str(self))
 
     def __str__(self):
-- 
2.43.0


From f7c0cb5518d6b1e5af33cba26cad2a55ec795ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 077/102] fix: length texts given to a matrix become lengths

---
 svgio/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 806a61d..9dc0f83 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1965,6 +1965,10 @@ class Matrix:
             self.d = components[3]
             self.e = components[4]
             self.f = components[5]
+            if isinstance(self.e, str):
+                self.e = Length(self.e)
+            if isinstance(self.f, str):
+                self.f = Length(self.f)
             self.render(**kwargs)
 
     def __ne__(self, other):
-- 
2.43.0


From af9c546f2945e17f8547995acdb7c8f4abb16cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 078/102] fix: an arc command without arguments is an error

---
 svgio/path.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index aa81920..46b4f31 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -308,7 +308,7 @@ class PathLexicalParser:
                     if not self._more():
                         break
             elif cmd == "a":
-                while self._more():
+                while True:
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
                         self._number(),
@@ -324,8 +324,10 @@ class PathLexicalParser:
                         if coord is None:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=True)
+                    if not self._more():
+                        break
             elif cmd == "A":
-                while self._more():
+                while True:
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
                         self._number(),
@@ -341,6 +343,8 @@ class PathLexicalParser:
                         if coord is None:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=False)
+                    if not self._more():
+                        break
         self.parser.end()
 
 
-- 
2.43.0


From fbcfe0e1c23bf35985a4eeb6f03c4286dd901e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 079/102] fix: arcs whose squared radii or chord underflow do
 not divide by zero

---
 svgio/path.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 46b4f31..a01b8e7 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1652,14 +1652,8 @@ class Arc(Curve):
         self.end = end
         rx = abs(rx)
         ry = abs(ry)
-        if start == end or rx == 0 or ry == 0:
-            # If start is equal to end, there are infinite number of circles so these void out.
-            # We still permit this kind of arc, but SVG parameterization cannot be used to achieve it.
-            self.sweep = 0
-            self.prx = Point(start)
-            self.pry = Point(start)
-            self.center = Point(start)
-            return
+        rx_sq = rx * rx
+        ry_sq = ry * ry
         cosr = cos(radians(rotation))
         sinr = sin(radians(rotation))
         dx = (start.real - end.real) / 2
@@ -1668,9 +1662,19 @@ class Arc(Curve):
         x1prim_sq = x1prim * x1prim
         y1prim = -sinr * dx + cosr * dy
         y1prim_sq = y1prim * y1prim
-
-        rx_sq = rx * rx
-        ry_sq = ry * ry
+        if (
+            start == end
+            or rx_sq == 0
+            or ry_sq == 0
+            or rx_sq * y1prim_sq + ry_sq * x1prim_sq == 0
+        ):
+            # If start is equal to end, there are infinite number of circles so these void out.
+            # We still permit this kind of arc, but SVG parameterization cannot be used to achieve it.
+            self.sweep = 0
+            self.prx = Point(start)
+            self.pry = Point(start)
+            self.center = Point(start)
+            return
 
         # Correct out of range radii
         radius_check = (x1prim_sq / rx_sq) + (y1prim_sq / ry_sq)
-- 
2.43.0


From 8f526bbee95bedfb152f7c102707110e25c64b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 080/102] fix: an arc of a radius is clockwise by default, also
 when it is a half circle

---
 svgio/path.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index a01b8e7..c395253 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1342,9 +1342,8 @@ class Arc(Curve):
                     mid.x + sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
                     mid.y + sqrt(r ** 2 - hq ** 2) * (self.end.x - self.start.x) / q,
                 )
-                cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "ccw" in kwargs and kwargs["ccw"] and cw or not cw:
-                    # ccw arg exists, is true, and we found the cw center, or we didn't find the cw center.
+                # This is the center of the cw arc.
+                if "ccw" in kwargs and kwargs["ccw"]:
                     self.center = Point(
                         mid.x
                         - sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
-- 
2.43.0


From 170e141c1efc3ee72429f9b25b13e5335139d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 081/102] fix: a quarter arc given its two radii turns the
 requested way

---
 svgio/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c395253..ecd9df5 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1358,10 +1358,12 @@ class Arc(Curve):
                 self.sweep = tau / 4.0
                 self.center = Point(self.start.x, self.end.y)
                 cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "scooped" in kwargs and kwargs["scooped"]:
+                if ("scooped" in kwargs and kwargs["scooped"]) or (
+                    "ccw" in kwargs and kwargs["ccw"]
+                ):
                     self.sweep = -self.sweep
                     cw = not cw
-                if ("ccw" in kwargs and kwargs["ccw"] and cw) or not cw:
+                if not cw:
                     self.center = Point(self.end.x, self.start.y)
 
         if self.center is None:
-- 
2.43.0


From 6bedfa359e4e9195e25d03e00c93a5709c746342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 082/102] fix: the nearest point of a line is a point, also of
 a line without length or beyond its ends

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index ecd9df5..35b4f27 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -696,14 +696,14 @@ class Linear(PathSegment):
         sq_distance_ab = v_ab_x * v_ab_x + v_ab_y * v_ab_y
         ab_ap_product = v_ab_x * v_ap_x + v_ab_y * v_ap_y
         if sq_distance_ab == 0:
-            return 0  # Line is point.
+            return Point(a)  # Line is point.
         amount = ab_ap_product / float(sq_distance_ab)
         if respect_bounds:
             if amount > 1:
                 amount = 1
             if amount < 0:
                 amount = 0
-        return self.point(amount)
+        return Point.towards(a, b, amount)
 
     def d(self, current_point=None, relative=None, smooth=None):
         raise NotImplementedError
-- 
2.43.0


From 4bcaa2442b642c1b44bf5b6e495a948c7b0d89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 083/102] fix: a Move given its end and a flag keeps the end

---
 svgio/path.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 35b4f27..080dece 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -550,15 +550,12 @@ class Move(PathSegment):
             if "start" in kwargs:
                 self.start = kwargs["start"]
         elif len(args) == 1:
-            if len(kwargs) == 0:
-                self.end = args[0]
+            if "end" in kwargs:
+                self.start = args[0]
+                self.end = kwargs["end"]
             else:
-                if "end" in kwargs:
-                    self.start = args[0]
-                    self.end = kwargs["end"]
-                elif "start" in kwargs:
-                    self.start = kwargs["start"]
-                    self.end = args[0]
+                self.start = kwargs.get("start")
+                self.end = args[0]
         elif len(args) == 2:
             self.start = args[0]
             self.end = args[1]
-- 
2.43.0


From 96f3e8765ebd33699f8e6f65fba221dc9e13a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 084/102] fix: a cubic without a first control point keeps its
 second

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 080dece..37a7d21 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -944,7 +944,7 @@ class CubicBezier(Curve):
     def __init__(self, start, control1, control2, end, **kwargs):
         Curve.__init__(self, start, end, **kwargs)
         self.control1 = Point(control1) if control1 is not None else None
-        self.control2 = Point(control2) if control1 is not None else None
+        self.control2 = Point(control2) if control2 is not None else None
 
     def __repr__(self):
         return "CubicBezier(start=%s, control1=%s, control2=%s, end=%s)" % (
-- 
2.43.0


From b4936b85eedd68d1b7fe419fb18437c5a07cd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 085/102] fix: reading a matrix past its last component raises
 IndexError

---
 svgio/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 9dc0f83..8bc589d 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2039,6 +2039,7 @@ class Matrix:
             return self.e
         elif item == 5:
             return self.f
+        raise IndexError
 
     def __setitem__(self, key, value):
         if key == 0:
-- 
2.43.0


From cd15c644b299382ac64a1c5a7324414e914488f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 086/102] fix: the iterator of a subpath is iterable

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 37a7d21..0fdb64f 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2899,6 +2899,9 @@ class Subpath:
                 self.n = subpath._start - 1
                 self.subpath = subpath
 
+            def __iter__(self):
+                return self
+
             def __next__(self):
                 self.n += 1
                 try:
-- 
2.43.0


From 017acd983dd93b5595b91bf04d95e4a35e9b449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 087/102] fix: powers and arguments of points are those of
 complex numbers

---
 svgio/basic.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 8bc589d..3a9ce29 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1729,18 +1729,14 @@ class Point:
         return hypot(self.x, self.y)
 
     def __pow__(self, other):
-        r_raised = abs(self) ** other
-        argz_multiplied = self.argz() * other
-
-        real_part = round(r_raised * cos(argz_multiplied))
-        imag_part = round(r_raised * sin(argz_multiplied))
-        return self.__class__(real_part, imag_part)
+        power = complex(self) ** other
+        return self.__class__(power.real, power.imag)
 
     def conjugate(self):
         return self.__class__(self.real, -self.imag)
 
     def argz(self):
-        return atan(self.imag / self.real)
+        return atan2(self.imag, self.real)
 
     @property
     def real(self):
-- 
2.43.0


From 4ccd8f024ffe796759c4a12b815092baee35479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 088/102] fix: Image.data decodes the data URL of the href, and
 is None without one

---
 svgio/nodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 68ededc..885329b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1658,18 +1658,18 @@ class Image(Element, GraphicalElement, Transformable):
     @property
     def data(self):
         url = self.href
-        if url.startswith("data:image/"):
+        if url is not None and url.startswith("data:image/"):
             # Data URL
             from base64 import b64decode
 
             if url.startswith("data:image/png;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpg;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpeg;base64,"):
-                return b64decode(self.url[23:])
+                return b64decode(url[23:])
             elif url.startswith("data:image/svg+xml;base64,"):
-                return b64decode(self.url[26:])
+                return b64decode(url[26:])
 
     @property
     def x(self):
-- 
2.43.0


From 7090b45b831f215f34a23ca6538d4b82ddfdacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 089/102] fix: line elements give their segments from attribute
 text, with the transforms of their ancestors

---
 svgio/nodes.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 885329b..652271d 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -658,6 +658,29 @@ class Shape(Element, GraphicalElement, Transformable):
     stroke_width: Stroke width of the stroke. (GraphicObject)
     """
 
+    def _user_units(self, value):
+        """
+        A geometry attribute (number, text or Length) in user units. Absent values are zero.
+        """
+        if value is None:
+            return 0.0
+        if self.document is None:
+            return Length(value).value(ppi=DEFAULT_PPI)
+        return Length(value).value(ppi=self.document.pixels_per_inch)
+
+    def _apply_transform(self, segments):
+        """
+        Applies the transform of this shape and then those of its ancestors to the segments.
+        """
+        matrix = Matrix()
+        for node in Document.get_ancestors(self):
+            transform = node.attributes.get(SVG_ATTR_TRANSFORM)
+            if transform is not None:
+                matrix *= Matrix(transform)
+        if matrix.is_identity():
+            return segments
+        return [segment * matrix for segment in segments]
+
     def segments(self, transformed=True):
         """
         Returns PathSegments which correctly produce this shape.
@@ -1237,12 +1260,12 @@ class Line(Shape):
         """
         from svgio import path
 
-        start = Point(self.x1, self.y1)
-        end = Point(self.x2, self.y2)
-        if transformed:
-            start *= self.transform
-            end *= self.transform
-        return path.Move(None, start), path.Line(start, end)
+        start = Point(self._user_units(self.x1), self._user_units(self.y1))
+        end = Point(self._user_units(self.x2), self._user_units(self.y2))
+        segments = path.Move(None, start), path.Line(start, end)
+        if not transformed:
+            return segments
+        return self._apply_transform(segments)
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 022d0d0307ff876a8280af18856a0b6f2d83e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 090/102] fix: rect elements give the segments of their outline

---
 svgio/nodes.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 652271d..b13187c 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -814,18 +814,18 @@ class Rect(Shape):
         """
         from svgio import path
 
-        x = self.x
-        y = self.y
-        width = self.width
-        height = self.height
-        if self.is_degenerate():
+        x = self._user_units(self.x)
+        y = self._user_units(self.y)
+        width = self._user_units(self.width)
+        height = self._user_units(self.height)
+        if width <= 0 or height <= 0:
             return ()  # a computed value of zero for either dimension disables rendering.
-        rx = self.rx
-        ry = self.ry
-        if rx < 0 < width or ry < 0 < height:
-            rx = 0
-            ry = 0
-        if rx == ry == 0:
+        # An absent radius is the other one, neither may exceed half of its dimension.
+        rx = self.rx if self.rx is not None else self.ry
+        ry = self.ry if self.ry is not None else self.rx
+        rx = min(self._user_units(rx), width / 2.0)
+        ry = min(self._user_units(ry), height / 2.0)
+        if rx <= 0 or ry <= 0:
             segments = (
                 path.Move(None, (x, y)),
                 path.Line((x, y), (x + width, y)),
@@ -861,10 +861,9 @@ class Rect(Shape):
                 path.Arc((x, y + ry), (x + rx, y), rx=rx, ry=ry),
                 path.Close((x + rx, y), (x + rx, y)),
             )
-        if not transformed or self.transform.is_identity():
+        if not transformed:
             return segments
-        else:
-            return [s * self.transform for s in segments]
+        return self._apply_transform(segments)
 
 
 class _RoundShape(Shape):
-- 
2.43.0


From 5fc735829accde363ca7c2dd26058c4dc1eab133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 091/102] fix: circle and ellipse elements give the segments of
 their outline

---
 svgio/nodes.py | 91 +++++++++++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 49 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index b13187c..83cb9f6 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -869,6 +869,18 @@ class Rect(Shape):
 class _RoundShape(Shape):
     # rehome class
 
+    rotation = 0.0  # Circle and ellipse elements are only rotated by their transform.
+
+    def _radii(self):
+        """
+        The horizontal and vertical radius in user units.
+        """
+        return self._user_units(self.rx), self._user_units(self.ry)
+
+    @property
+    def center(self):
+        return Point(self._user_units(self.cx), self._user_units(self.cy))
+
     def unit_matrix(self):
         """
         return the unit matrix which could would transform the unit circle into this ellipse.
@@ -880,7 +892,8 @@ class _RoundShape(Shape):
         """
         # TODO: REHOME THIS FUNCTION
         m = Matrix()
-        m.post_scale(self.rx, self.ry)
+        rx, ry = self._radii()
+        m.post_scale(rx, ry)
         m.post_rotate(self.rotation)
         center = self.center
         m.post_translate(center.x, center.y)
@@ -897,12 +910,13 @@ class _RoundShape(Shape):
         # TODO: Rehome this function
         from svgio import path
 
+        rx, ry = self._radii()
         return path.Arc(
             self.point_at_t(t0),
             self.point_at_t(t1),
             self.center,
-            rx=self.rx,
-            ry=self.ry,
+            rx=rx,
+            ry=ry,
             rotation=self.rotation,
             sweep=t1 - t0,
         )
@@ -922,12 +936,13 @@ class _RoundShape(Shape):
 
         from svgio import path
 
+        rx, ry = self._radii()
         return path.Arc(
             self.point_at_angle(a0),
             self.point_at_angle(a1),
             self.center,
-            rx=self.rx,
-            ry=self.ry,
+            rx=rx,
+            ry=ry,
             rotation=self.rotation,
             ccw=ccw,
         )
@@ -941,8 +956,7 @@ class _RoundShape(Shape):
         :return: point found
         """
         # TODO: REHOME THIS FUNCTION
-        a = self.rx
-        b = self.ry
+        a, b = self._radii()
         if a == b:
             return self.point_at_t(angle)
         angle -= self.rotation
@@ -961,11 +975,7 @@ class _RoundShape(Shape):
         :return: angle to given point.
         """
         # TODO: REHOME FUNCTION
-        if not self.transform.is_identity():
-            return self.center.angle_to(p)
-        else:
-            center = Point(self.cx, self.cy)
-            return center.angle_to(p)
+        return self.center.angle_to(p)
 
     def t_at_point(self, p):
         """
@@ -977,8 +987,7 @@ class _RoundShape(Shape):
         # TODO: REHOME FUNCTION
         angle = self.angle_at_point(p)
         angle -= self.rotation
-        a = self.rx
-        b = self.ry
+        a, b = self._radii()
         t = atan2(a * tan(angle), b)
         tau_1_4 = tau / 4.0
         tau_3_4 = 3 * tau_1_4
@@ -998,8 +1007,7 @@ class _RoundShape(Shape):
         """
         # TODO: REHOME FUNCTION
         rotation = self.rotation
-        a = self.rx
-        b = self.ry
+        a, b = self._radii()
         center = self.center
         cx = center.x
         cy = center.y
@@ -1024,8 +1032,7 @@ class _RoundShape(Shape):
         return self.point_at_t(tau * position)
 
     def _ramanujan_length(self):
-        a = self.rx
-        b = self.ry
+        a, b = self._radii()
         if b > a:
             a, b = b, a
         h = (a - b) ** 2 / (a + b) ** 2
@@ -1069,13 +1076,6 @@ class Ellipse(_RoundShape):
         values = Document.get_values(self)
         return values.get(SVG_ATTR_CENTER_Y)
 
-    @property
-    def center(self):
-        values = Document.get_values(self)
-        cx = values.get(SVG_ATTR_CENTER_X)
-        cy = values.get(SVG_ATTR_CENTER_Y)
-        return Point(cx, cy)
-
     def segments(self, transformed=True):
         """
         SVG path decomposition is given in SVG 2.0 10.3, 10.4.
@@ -1093,16 +1093,12 @@ class Ellipse(_RoundShape):
         p = path.Path()
         steps = 4
         step_size = tau / steps
-        if (
-            transformed
-            and self.transform.value_scale_x() * self.transform.value_scale_y() < 0
-        ):
-            step_size = -step_size
         t_start = 0
         t_end = step_size
         # zero for either dimension, or a computed value of auto for both dimensions, disables rendering of the element.
-        rx = self.rx
-        ry = self.ry
+        rx, ry = self._radii()
+        if rx <= 0 or ry <= 0:
+            return ()
         center = self.center
         p.move((self.point_at_t(0)))
         for i in range(steps):
@@ -1112,13 +1108,15 @@ class Ellipse(_RoundShape):
                 center,
                 rx=rx,
                 ry=ry,
-                rotation=0,  # was self.rotation
+                rotation=self.rotation,
                 sweep=step_size,
             )
             t_start = t_end
             t_end += step_size
         p.closed()
-        return p.segments(transformed)
+        if not transformed:
+            return p.segments()
+        return self._apply_transform(p.segments())
 
 
 class Circle(_RoundShape):
@@ -1138,6 +1136,10 @@ class Circle(_RoundShape):
             pass
         super().__init__(*args, **kwargs)
 
+    def _radii(self):
+        r = self._user_units(self.r)
+        return r, r
+
     @property
     def r(self):
         values = Document.get_values(self)
@@ -1153,13 +1155,6 @@ class Circle(_RoundShape):
         values = Document.get_values(self)
         return values.get(SVG_ATTR_CENTER_Y)
 
-    @property
-    def center(self):
-        values = Document.get_values(self)
-        cx = values.get(SVG_ATTR_CENTER_X)
-        cy = values.get(SVG_ATTR_CENTER_Y)
-        return Point(cx, cy)
-
     def segments(self, transformed=True):
         """
         SVG path decomposition is given in SVG 2.0 10.3, 10.4.
@@ -1177,16 +1172,12 @@ class Circle(_RoundShape):
         p = path.Path()
         steps = 4
         step_size = tau / steps
-        if (
-            transformed
-            and self.transform.value_scale_x() * self.transform.value_scale_y() < 0
-        ):
-            step_size = -step_size
         t_start = 0
         t_end = step_size
         # zero for either dimension, or a computed value of auto for both dimensions, disables rendering of the element.
-        rx = self.rx
-        ry = self.ry
+        rx, ry = self._radii()
+        if rx <= 0 or ry <= 0:
+            return ()
         center = self.center
         p.move((self.point_at_t(0)))
         for i in range(steps):
@@ -1202,7 +1193,9 @@ class Circle(_RoundShape):
             t_start = t_end
             t_end += step_size
         p.closed()
-        return p.segments(transformed)
+        if not transformed:
+            return p.segments()
+        return self._apply_transform(p.segments())
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 94ee95fc135fd1edac28da432500f7ecaa879f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 092/102] fix: polyline and polygon elements give the segments
 of their points

---
 svgio/nodes.py | 44 ++++++++++----------------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 83cb9f6..d4f435f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1282,45 +1282,19 @@ class _Polyshape(Shape):
         Note:  For a polygon/polyline made from n points, the resulting path will
         be composed of n lines (even if some of these lines have length zero).
         """
-        # TODO: Parse points get segments.
         from svgio import path
 
-        if len(self.points) != 0:
-            return
+        points = self.points
         if points is None:
-            self.points = list()
-            return
-        if isinstance(points, dict):
-            if SVG_ATTR_POINTS in points:
-                points = points[SVG_ATTR_POINTS]
-            else:
-                self.points = list()
-                return
-        try:
-            if len(points) == 1:
-                points = points[0]
-        except TypeError:
-            pass
+            return []
         if isinstance(points, str):
             findall = REGEX_COORD_PAIR.findall(points)
-            self.points = [Point(float(j), float(k)) for j, k in findall]
-        elif isinstance(points, (list, tuple)):
-            if len(points) == 0:
-                self.points = list()
-            else:
-                first_point = points[0]
-                if isinstance(first_point, (float, int)):
-                    self.points = list(map(Point, zip(*[iter(points)] * 2)))
-                elif isinstance(first_point, (list, tuple, complex, str, Point)):
-                    self.points = list(map(Point, points))
+            points = [Point(float(j), float(k)) for j, k in findall]
         else:
-            self.points = list()
-
-        if self.transform.is_identity() or not transformed:
-            points = self.points
-        else:
-            points = list(map(self.transform.point_in_matrix_space, self.points))
-        if self.is_degenerate():
+            if len(points) != 0 and isinstance(points[0], (float, int)):
+                points = zip(*[iter(points)] * 2)
+            points = list(map(Point, points))
+        if len(points) == 0:
             return []
         segments = [path.Move(None, points[0])]
         last = points[0]
@@ -1330,7 +1304,9 @@ class _Polyshape(Shape):
             last = current
         if isinstance(self, Polygon):
             segments.append(path.Close(last, points[0]))
-        return segments
+        if not transformed:
+            return segments
+        return self._apply_transform(segments)
 
 
 class Polyline(_Polyshape):
-- 
2.43.0


From d65827a854eef64703dcf2b17ce8dd4474faa6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 093/102] fix: path elements apply their transform to their
 segments

---
 svgio/nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d4f435f..8dc08b2 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1363,7 +1363,11 @@ class Path(Shape):
     def segments(self, transformed=True):
         from svgio import path
 
-        return path.Path(self.d)
+        d = self.d
+        segments = path.Path(d if d is not None else "").segments()
+        if not transformed:
+            return segments
+        return self._apply_transform(segments)
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 8c2c483f6e15f51d24ebe4b7b2c010261fd62827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 094/102] fix: the box of a shape element leaves out its moves

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 8dc08b2..dea3a77 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -710,7 +710,7 @@ class Shape(Element, GraphicalElement, Transformable):
         bbs = [
             seg.bbox()
             for seg in self.segments(transformed=transformed)
-            if not isinstance(path.Close, path.Move)
+            if not isinstance(seg, path.Move)
         ]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
-- 
2.43.0


From 73e2ac6184c003d5d1b9ba7c9cb66923bd005a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 095/102] fix: svg elements give the transform of their viewBox

---
 svgio/nodes.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index dea3a77..51a558f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -406,6 +406,16 @@ class Element(Node):
     def shadow_root(self):
         return None
 
+    def _user_units(self, value):
+        """
+        A geometry attribute (number, text or Length) in user units. Absent values are zero.
+        """
+        if value is None:
+            return 0.0
+        if self.document is None:
+            return Length(value).value(ppi=DEFAULT_PPI)
+        return Length(value).value(ppi=self.document.pixels_per_inch)
+
 
 class ElementBuilder:
     def __init__(self, cls, document, parent):
@@ -658,16 +668,6 @@ class Shape(Element, GraphicalElement, Transformable):
     stroke_width: Stroke width of the stroke. (GraphicObject)
     """
 
-    def _user_units(self, value):
-        """
-        A geometry attribute (number, text or Length) in user units. Absent values are zero.
-        """
-        if value is None:
-            return 0.0
-        if self.document is None:
-            return Length(value).value(ppi=DEFAULT_PPI)
-        return Length(value).value(ppi=self.document.pixels_per_inch)
-
     def _apply_transform(self, segments):
         """
         Applies the transform of this shape and then those of its ancestors to the segments.
@@ -1853,7 +1853,18 @@ class SVG(Group, ContainerElement, StructuralElement):
         viewbox = self.viewBox
         if viewbox is None:
             return ""
-        return viewbox.transform(self)
+        viewbox = Viewbox(viewbox, self.preserveAspectRatio)
+        return Viewbox.viewbox_transform(
+            self._user_units(self.x),
+            self._user_units(self.y),
+            self._user_units(self.width),
+            self._user_units(self.height),
+            viewbox.x,
+            viewbox.y,
+            viewbox.width,
+            viewbox.height,
+            viewbox.preserve_aspect_ratio,
+        )
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From 11b716411b3a5b716cb0f969adb019250475a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 096/102] fix: path builder calls take any number of points

---
 svgio/path.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 0fdb64f..a93af7f 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2485,8 +2485,8 @@ class Path(MutableSequence):
         segment = Line(start_pos, end_pos)
         segment.relative = relative
         self.append(segment)
-        if len(points) > 1:
-            self.line(*points[1:], relative=relative)
+        for point in points[1:]:
+            self.line(point, relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2498,8 +2498,8 @@ class Path(MutableSequence):
             segment = Line(start_pos, Point(start_pos.x, y_points[0]))
         segment.relative = relative
         self.append(segment)
-        if len(y_points) > 1:
-            self.vertical(*y_points[1:], relative=relative)
+        for y in y_points[1:]:
+            self.vertical(y, relative=relative)
         return self
 
     def horizontal(self, *x_points, **kwargs):
@@ -2512,8 +2512,8 @@ class Path(MutableSequence):
             segment = Line(start_pos, Point(x_points[0], start_pos.y))
             segment.relative = relative
         self.append(segment)
-        if len(x_points) > 1:
-            self.horizontal(*x_points[1:], relative=relative)
+        for x in x_points[1:]:
+            self.horizontal(x, relative=relative)
         return self
 
     def smooth_quad(self, *points, **kwargs):
@@ -2531,8 +2531,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = True
         self.append(segment)
-        if len(points) > 1:
-            self.smooth_quad(*points[1:], relative=relative)
+        for point in points[1:]:
+            self.smooth_quad(point, relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2548,8 +2548,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = False
         self.append(segment)
-        if len(points) > 2:
-            self.quad(*points[2:], relative=relative)
+        for i in range(2, len(points), 2):
+            self.quad(*points[i : i + 2], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2571,8 +2571,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = True
         self.append(segment)
-        if len(points) > 2:
-            self.smooth_cubic(*points[2:], relative=relative)
+        for i in range(2, len(points), 2):
+            self.smooth_cubic(*points[i : i + 2], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2591,8 +2591,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = False
         self.append(segment)
-        if len(points) > 3:
-            self.cubic(*points[3:], relative=relative)
+        for i in range(3, len(points), 3):
+            self.cubic(*points[i : i + 3], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2609,8 +2609,8 @@ class Path(MutableSequence):
         segment = Arc(start_pos, rx, ry, rotation, arc, sweep, end_pos)
         segment.relative = relative
         self.append(segment)
-        if len(arc_args) > 6:
-            self.arc(*arc_args[6:], relative=relative)
+        for i in range(6, len(arc_args), 6):
+            self.arc(*arc_args[i : i + 6], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From 3747dd01a34f9e42c355f1b803db6ca64a5deb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 097/102] fix: multiplying an element by a matrix appends it to
 its transform

---
 svgio/nodes.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 51a558f..7da1265 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -540,9 +540,9 @@ class Transformable:
         return values.get(SVG_ATTR_TRANSFORM)
 
     def __mul__(self, other):
-        # TODO: Mutate TRANSFORM TO APPEND THIS.
         if isinstance(other, (Matrix, str)):
             n = copy(self)
+            n.attributes = dict(self.attributes)
             n *= other
             return n
         return NotImplemented
@@ -553,8 +553,12 @@ class Transformable:
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
-        return self
+            transform = self.attributes.get(SVG_ATTR_TRANSFORM)
+            if transform is not None:
+                other = Matrix(transform) * other
+            self.attributes[SVG_ATTR_TRANSFORM] = Matrix(other)
+            return self
+        return NotImplemented
 
 
 class GraphicalElement:
@@ -642,7 +646,7 @@ class GraphicalElement:
 ########################
 
 
-class Shape(Element, GraphicalElement, Transformable):
+class Shape(Transformable, Element, GraphicalElement):
     """
     SVG Shapes are several SVG items defined in SVG 1.1 9.1
     https://www.w3.org/TR/SVG11/shapes.html
@@ -1378,7 +1382,7 @@ class Path(Shape):
 ########################
 
 
-class Group(Element, ContainerElement, StructuralElement, Transformable):
+class Group(Transformable, Element, ContainerElement, StructuralElement):
     """
     Group Container element can have children.
     SVG 2.0 <g> are defined in:
@@ -1525,7 +1529,7 @@ class Pattern(ContainerElement, Element):
         return self.__class__.__name__
 
 
-class Text(TextContentElement, Element, GraphicalElement, Transformable):
+class Text(Transformable, TextContentElement, Element, GraphicalElement):
     """
     SVG Text are defined in SVG 2.0 Chapter 11
 
@@ -1636,7 +1640,7 @@ class TSpan(Text):
         return self.__class__.__name__
 
 
-class Image(Element, GraphicalElement, Transformable):
+class Image(Transformable, Element, GraphicalElement):
     """
     SVG Images are defined in SVG 2.0 12.3
 
-- 
2.43.0


From f580d564a91d82a44a6c553b5c74e1e0f4e400c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 098/102] fix: a Matrix attribute is written as SVG transform
 text

---
 svgio/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 7da1265..a500b31 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -83,6 +83,8 @@ class Node(list):
             context = SubElement(context, tag)
         for k in self.attributes:
             v = self.attributes[k]
+            if isinstance(v, Matrix):
+                v = "matrix(%s, %s, %s, %s, %s, %s)" % (v.a, v.b, v.c, v.d, v.e, v.f)
             context.set(str(k), str(v))
         context.text = self.character_data
         for c in self:
-- 
2.43.0


From 84920800042ac6a83cbe048ac8b6fa66437ae598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 099/102] fix: images and patterns give the transform of their
 viewBox

---
 svgio/nodes.py | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index a500b31..9998713 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -418,6 +418,26 @@ class Element(Node):
             return Length(value).value(ppi=DEFAULT_PPI)
         return Length(value).value(ppi=self.document.pixels_per_inch)
 
+    def _viewbox_transform(self):
+        """
+        The transform from the viewBox of this element to its x, y, width and height.
+        """
+        viewbox = self.attributes.get(SVG_ATTR_VIEWBOX)
+        if viewbox is None:
+            return ""
+        viewbox = Viewbox(viewbox, self.attributes.get(SVG_ATTR_PRESERVEASPECTRATIO))
+        return Viewbox.viewbox_transform(
+            self._user_units(self.x),
+            self._user_units(self.y),
+            self._user_units(self.width),
+            self._user_units(self.height),
+            viewbox.x,
+            viewbox.y,
+            viewbox.width,
+            viewbox.height,
+            viewbox.preserve_aspect_ratio,
+        )
+
 
 class ElementBuilder:
     def __init__(self, cls, document, parent):
@@ -1464,9 +1484,7 @@ class Pattern(ContainerElement, Element):
 
     @property
     def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
+        return self._viewbox_transform()
 
     @property
     def x(self):
@@ -1710,9 +1728,7 @@ class Image(Transformable, Element, GraphicalElement):
 
     @property
     def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
+        return self._viewbox_transform()
 
     def load(self, directory=None):
         try:
@@ -1856,21 +1872,7 @@ class SVG(Group, ContainerElement, StructuralElement):
 
     @property
     def viewbox_transform(self):
-        viewbox = self.viewBox
-        if viewbox is None:
-            return ""
-        viewbox = Viewbox(viewbox, self.preserveAspectRatio)
-        return Viewbox.viewbox_transform(
-            self._user_units(self.x),
-            self._user_units(self.y),
-            self._user_units(self.width),
-            self._user_units(self.height),
-            viewbox.x,
-            viewbox.y,
-            viewbox.width,
-            viewbox.height,
-            viewbox.preserve_aspect_ratio,
-        )
+        return self._viewbox_transform()
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From d1f38ae657623fcc179fa85297c8c3c412247a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 100/102] fix: loading an image takes its size

---
 svgio/nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 9998713..1762095 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1742,6 +1742,11 @@ class Image(Transformable, Element, GraphicalElement):
         except ImportError:
             pass
 
+    def set_values_by_image(self):
+        image = vars(self).get("image")  # self.image would be the element factory.
+        if image is not None:
+            self.image_width, self.image_height = image.size
+
     def load_data(self):
         try:
             # This code will not activate without PIL/Pillow installed.
-- 
2.43.0


From 29a810f79a353bd401f32a885735eb25244a9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 101/102] fix: the box of an image applies its transform as
 shapes do

---
 svgio/nodes.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 1762095..dc9a60d 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -561,6 +561,17 @@ class Transformable:
         values = Document.get_values(self)
         return values.get(SVG_ATTR_TRANSFORM)
 
+    def _full_transform(self):
+        """
+        The transform of this element followed by those of its ancestors.
+        """
+        matrix = Matrix()
+        for node in Document.get_ancestors(self):
+            transform = node.attributes.get(SVG_ATTR_TRANSFORM)
+            if transform is not None:
+                matrix *= Matrix(transform)
+        return matrix
+
     def __mul__(self, other):
         if isinstance(other, (Matrix, str)):
             n = copy(self)
@@ -698,11 +709,7 @@ class Shape(Transformable, Element, GraphicalElement):
         """
         Applies the transform of this shape and then those of its ancestors to the segments.
         """
-        matrix = Matrix()
-        for node in Document.get_ancestors(self):
-            transform = node.attributes.get(SVG_ATTR_TRANSFORM)
-            if transform is not None:
-                matrix *= Matrix(transform)
+        matrix = self._full_transform()
         if matrix.is_identity():
             return segments
         return [segment * matrix for segment in segments]
@@ -1787,18 +1794,20 @@ class Image(Transformable, Element, GraphicalElement):
         """
         Get the bounding box for the given image object
         """
+        matrix = self._full_transform()
         if self.image_width is None or self.image_height is None:
             p = Point(0, 0)
-            p *= self.transform
+            if transformed:
+                p *= matrix
             return p.x, p.y, p.x, p.y
         width = self.image_width
         height = self.image_height
         if transformed:
             p = (
-                Point(0, 0) * self.transform,
-                Point(width, 0) * self.transform,
-                Point(width, height) * self.transform,
-                Point(0, height) * self.transform,
+                Point(0, 0) * matrix,
+                Point(width, 0) * matrix,
+                Point(width, height) * matrix,
+                Point(0, height) * matrix,
             )
         else:
             p = (Point(0, 0), Point(width, 0), Point(width, height), Point(0, height))
-- 
2.43.0


From 88b555599458db407abd8f5ac58f4bd132e13f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 102/102] fix: the font shorthand takes all its spellings and
 ignores what it is not

---
 svgio/constants.py |  4 +++-
 svgio/nodes.py     | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index 78f2d9d..dbff460 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -181,7 +181,9 @@ REGEX_COLOR_HSL = re.compile(
 REGEX_LENGTH = re.compile(r"(%s)([A-Za-z%%]*)" % PATTERN_FLOAT)
 REGEX_CSS_STYLE = re.compile(r"([^{]+)\s*\{\s*([^}]+)\s*\}")
 REGEX_CSS_FONT = re.compile(
-    r"(?:(normal|italic|oblique)\s|(normal|small-caps)\s|(normal|bold|bolder|lighter|\d{3})\s|(normal|ultra-condensed|extra-condensed|condensed|semi-condensed|semi-expanded|expanded|extra-expanded|ultra-expanded)\s)*\s*(xx-small|x-small|small|medium|large|x-large|xx-large|larger|smaller|\d+(?:em|pt|pc|px|%))(?:/(xx-small|x-small|small|medium|large|x-large|xx-large|larger|smaller|\d+(?:em|pt|pc|px|%)))?\s*(.*),?\s+(serif|sans-serif|cursive|fantasy|monospace);?"
+    r"(?:(normal|italic|oblique)\s+|(small-caps)\s+|(bold|bolder|lighter|\d{3})\s+|(ultra-condensed|extra-condensed|condensed|semi-condensed|semi-expanded|expanded|extra-expanded|ultra-expanded)\s+)*(xx-small|x-small|small|medium|large|x-large|xx-large|larger|smaller|[0-9]*\.?[0-9]+(?:%s|%%))(?:\s*/\s*(normal|[0-9]*\.?[0-9]+(?:%s|%%)?))?\s+(?:(\S.*?)[,\s])?(serif|sans-serif|cursive|fantasy|monospace)\s*;?$"
+    % (PATTERN_LENGTH_UNITS, PATTERN_LENGTH_UNITS),
+    re.DOTALL,
 )
 
 svg_parse = [("COMMAND", r"[MmZzLlHhVvCcSsQqTtAa]"), ("SKIP", PATTERN_COMMAWSP)]
diff --git a/svgio/nodes.py b/svgio/nodes.py
index dc9a60d..b71bbef 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1626,7 +1626,10 @@ class Text(Transformable, TextContentElement, Element, GraphicalElement):
         generic-family:  ‘serif’, ‘sans-serif’, ‘cursive’, ‘fantasy’, and ‘monospace’
         """
         # https://www.w3.org/TR/css-fonts-3/#font-prop
-        font_elements = list(*re.findall(REGEX_CSS_FONT, font))
+        match = REGEX_CSS_FONT.match(font.strip())
+        if match is None:
+            return  # Not a font shorthand.
+        font_elements = match.groups("")
 
         font_style = font_elements[0]
         font_variant = font_elements[1]
@@ -1641,8 +1644,9 @@ class Text(Transformable, TextContentElement, Element, GraphicalElement):
         if len(font_size) > 0:
             self.font_size = Length(font_size).value()
         if len(font_face) > 0:
+            font_face = font_face.rstrip()
             if font_face.endswith(","):
-                font_face = font_face[:-1]
+                font_face = font_face[:-1].rstrip()
             self.font_face = font_face
 
         if len(font_family) > 0:
@@ -1655,7 +1659,7 @@ class Text(Transformable, TextContentElement, Element, GraphicalElement):
             return 400
         try:
             return int(weight)
-        except KeyError:
+        except ValueError:
             return 400
 
     def _name(self):
-- 
2.43.0


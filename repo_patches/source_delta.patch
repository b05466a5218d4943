From 1b36d65d6f66ab925b655435b8cec1edd8adf991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 01/39] fix: only treat points as equally spaced when every
 point is on the grid

Points which merely ended on the expected x (or whose mean interval happened
to match an appended point) were indexed as if they were on a regular grid,
so y() and x_index() returned values of the wrong points.
---
 curvepy/points.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..ef99863 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -207,21 +207,24 @@ class Points(Curve):
         if new_points_len == 0 or old_points_len + new_points_len < 2:
             return True
 
-        if old_points_len != 0:
-            start = old_points[-1][0]
-            steps = new_points_len
-        else:
-            start = new_points[0][0]
-            steps = new_points_len - 1
+        if old_points_len > 1 and not self._is_equally_spaced:
+            return False
 
-        if self.interval is not None:
+        points = list(old_points[-1:]) + list(new_points)
+        if self.interval is not None and (old_points_len > 1 or self._force_equally_spaced):
             interval = self.interval
-        elif old_points_len == 1:
-            interval = new_points[0][0] - old_points[-1][0]
         else:
-            interval = new_points[1][0] - new_points[0][0]
+            interval = points[1][0] - points[0][0]
+
+        # Every point needs to be on the grid, not just the last one. Allow for
+        # rounding errors only if the points are required to be on a grid.
+        start = points[0][0]
+        tolerance = interval * 1e-9 if self._force_equally_spaced else 0
+        for i in range(1, len(points) - 1):
+            if abs(points[i][0] - (start + interval * i)) > tolerance:
+                return False
 
-        expected_last_x = start + interval * steps
+        expected_last_x = start + interval * (len(points) - 1)
         return new_points[-1][0] == expected_last_x
 
     def y(self, x):
-- 
2.43.0


From 6d601c70fc6338729485f13db96e5abbb2101a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 02/39] fix: refuse invalid edits of points before beginning
 the update

append(), replace(), reset() and set() raised after begin_update(), which left the
curve updating forever: later valid edits no longer refreshed its domain or
its observers.
---
 curvepy/points.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index ef99863..d9c8f34 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,10 +76,11 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+        self.begin_update(domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
@@ -91,17 +92,17 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
+        nearest_i = int(math.ceil(self.x_index(point[0])))
+        nearest_p = self._points[nearest_i]
+        if point[0] != nearest_p[0] and self._force_equally_spaced:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
         update_domain = Interval.point(point[0])
         self.begin_update(update_domain)
 
-        nearest_i = int(math.ceil(self.x_index(point[0])))
-        nearest_p = self._points[nearest_i]
         if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
-                self._points.insert(nearest_i, point)
-                self._is_equally_spaced = False
+            self._points.insert(nearest_i, point)
+            self._is_equally_spaced = False
         else:
             self._points[nearest_i] = point
 
@@ -166,10 +167,11 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
+        self.begin_update(update_domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points = list(points)
         self._did_change_points()
         self.end_update(update_domain)
-- 
2.43.0


From ff3ca0e94230d8046088ed0b720a39c62c1877c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 03/39] fix: refresh an extension after every update of its
 curve

An extension was only refreshed when the update lay within the extension
itself, so replacing, truncating, setting or clearing the points of the
curve left a stale domain and stale values. Constant extensions of one end
also failed when the curve became empty.
---
 curvepy/extension/constant.py  |  6 ++++--
 curvepy/extension/extension.py | 16 ++++++----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..9f78654 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -12,8 +12,10 @@ class ConstantExtension(Extension):
 
     def update_extension(self):
         if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
+            if self.start:
+                self.start_func.value = None
+            if self.end:
+                self.end_func.value = None
             return
 
         if self.start:
diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..a6ac42c 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -118,18 +118,14 @@ class Extension(Curve):
             (self.end and domain >= self.extension_interval)
 
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(Interval.union([domain, self.extension_interval]))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
+        # Any update may change the edges of the curve or their tangents
+        self._extension_stale = True
+        self._extension_interval_stale = True
+        self._update_extension_interval()
+        self.end_update(Interval.union([domain, self.extension_interval, self.update_interval]))
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
-- 
2.43.0


From ef8d9856ac812dbd03471ec8e6f80302c07c7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 04/39] fix: step an accumulator by its curve outside the
 accumulated points

Stepping from beyond the points accumulated so far jumped to the edge of
the accumulated points, so steps and slopes depended on earlier queries.
---
 curvepy/accumulator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..7a56d92 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -27,11 +27,21 @@ class Accumulator(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
+        x1 = None
+        if self.accumulated_points.domain.contains(x):
+            x1 = self.accumulated_points.x_previous(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
+        x1 = None
+        if self.accumulated_points.domain.contains(x):
+            x1 = self.accumulated_points.x_next(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+        return x1
 
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
-- 
2.43.0


From d9e9c261189c498d7c4d8c057b1dd90e8cb198c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 05/39] fix: allow an offset curve to be offset again

The offset value was stored in an attribute which hid the offset() method.
---
 curvepy/offset.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..9f125a2 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -16,11 +16,11 @@ class Offset(Curve):
     def __init__(self, func, offset, duration=None):
         super().__init__()
         self.curve = Curve.parse(func)
-        self.offset = offset
+        self._offset = offset
         self.duration = None
         if duration is not None:
             self.duration = Duration.parse(duration)
-            if type(self.offset) != int:
+            if type(self._offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
@@ -30,7 +30,7 @@ class Offset(Curve):
 
     def __repr__(self):
         try:
-            return f'{self.curve}.offset({self.offset})'
+            return f'{self.curve}.offset({self._offset})'
         except Exception as e:
             return super().__repr__() + f'({e})'
 
@@ -93,17 +93,17 @@ class Offset(Curve):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x + self.offset
+            return x + self._offset
         else:
-            return self._res_step(x, self.offset, floor=floor)
+            return self._res_step(x, self._offset, floor=floor)
 
     def _unoffset_x(self, x, floor=False):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x - self.offset
+            return x - self._offset
         else:
-            return self._res_step(x, -self.offset, floor=floor)
+            return self._res_step(x, -self._offset, floor=floor)
 
     def _res_step(self, x, count, floor=False):
         if count == 0:
-- 
2.43.0


From 9607f56bcba8842550923457073d88f6ee49e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 06/39] fix: weigh neighbouring averages the right way round
 between points

---
 curvepy/sma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..8bdd1e3 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -107,7 +107,7 @@ class SMA(Integral):
             if sma01 is None:
                 return None
             u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
+            sma = u * sma1 + (1 - u) * sma01
             return sma
         return sma
 
-- 
2.43.0


From ceb103990264d045346d2d6d4e77ac8ae8fc2ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 07/39] fix: step a combined curve only by operands that have
 points of their own

---
 curvepy/aggregate.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 74ecb87..a670c24 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 from collections.abc import Sequence
@@ -17,6 +18,12 @@ class Aggregate(Curve):
             funcs = [funcs] + list(args)
         super().__init__()
         self.funcs = Curve.parse_many(funcs)
+        # Curves with an infinite minimum step (such as constants and lines)
+        # have no points of their own to step to.
+        step_funcs = [f for f in self.funcs if f.min_step is None or not math.isinf(f.min_step)]
+        if len(step_funcs) == 0:
+            self.min_step = math.inf
+        self._step_funcs = step_funcs or self.funcs
         self.tfm = tfm
         self.is_union = union
         self.operator = operator
@@ -56,10 +63,16 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        return max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self._step_funcs), x)
+        if x1 is None:
+            x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        return min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self._step_funcs), x)
+        if x1 is None:
+            x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        return x1
 
 
 def min_or_none(iterable, gt):
-- 
2.43.0


From 0cd0403effbb8827208047348b82b4849c54af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 08/39] fix: include the starting point in a closed walk of
 points from a position

---
 curvepy/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..da6914e 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -225,6 +225,7 @@ class Curve:
             y = self.y(x)
             if y is None:
                 return points
+            points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From 5aba9efae086ed5fd12cd462f191f0934c1c5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 09/39] fix: regress the available points when a curve is too
 short for a tangent extension

---
 curvepy/extension/tangent.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..ea69ab4 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -33,12 +33,14 @@ class TangentExtension(Extension):
                 x1 = x
                 for i in range(self.regression_degree):
                     x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    if x1 is None:
+                        break
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
                     y = tangent.y(x)
                     d_y = tangent.slope
-            elif self.regression_period is not None:
+            elif self.regression_period is not None and x is not None:
                 domain = Interval(x, x + self.regression_period)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -62,12 +64,14 @@ class TangentExtension(Extension):
                 x0 = x
                 for i in range(self.regression_degree):
                     x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x0 is None:
+                        break
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
                     y = tangent.y(x)
                     d_y = tangent.slope
-            elif self.regression_period is not None:
+            elif self.regression_period is not None and x is not None:
                 domain = Interval(x - self.regression_period, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From 783838b5de7d97239f5378da712a247506b2aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 10/39] fix: judge whether an extension is possible only once
 it has been computed

---
 curvepy/extension/extension.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index a6ac42c..aa675be 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -154,7 +154,4 @@ class Extension(Curve):
         self._extension_interval_stale = True
 
         self.update_extension()
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
         self._update_extension_interval()
-- 
2.43.0


From 92b4310c2f1989a8be4e7459734981165f8ff5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 11/39] fix: encode an appended quote only once

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..2dc5fb3 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From 44d0b1bb530387ef692eed272fc1ae0a0d6d7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 12/39] fix: take the least of the lows in trailing_low

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 2dc5fb3..432d62d 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
-- 
2.43.0


From ed874f98da835325babf3c80546a8229361423f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 13/39] fix: read the range of quotes from their columns

---
 curvepy/quotes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 432d62d..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
-- 
2.43.0


From 5b244ef8e4e89f5ba9bcbac47aebb417f8945f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 14/39] fix: walk over points of a series with the default
 minimum step

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index da6914e..53bcaee 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -209,7 +209,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
-- 
2.43.0


From 158ffe3b2ccb43e93025879c34ffe1c977055825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 15/39] fix: announce an edit of a point up to its neighbours

---
 curvepy/points.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index d9c8f34..7151f10 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -97,7 +97,17 @@ class Points(Curve):
         if point[0] != nearest_p[0] and self._force_equally_spaced:
             raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
 
-        update_domain = Interval.point(point[0])
+        # The curve changes up to the neighbouring points
+        i0 = nearest_i - 1
+        i1 = nearest_i + 1 if point[0] == nearest_p[0] else nearest_i
+        has_previous = i0 >= 0
+        has_next = i1 < len(self._points)
+        update_domain = Interval(
+            self._points[i0][0] if has_previous else point[0],
+            self._points[i1][0] if has_next else point[0],
+            start_open=has_previous,
+            end_open=has_next
+        )
         self.begin_update(update_domain)
 
         if point[0] != nearest_p[0]:
-- 
2.43.0


From 98969d715fcc3352380262fe10ae27cb52d9ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 16/39] fix: end the update of a combination of curves once all
 of them have ended theirs

---
 curvepy/aggregate.py |  4 ++++
 curvepy/curve.py     | 12 ++++++++++--
 curvepy/piecewise.py |  4 ++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index a670c24..7d33984 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -13,6 +13,10 @@ class Aggregate(Curve):
         else:
             return Interval.intersection(domains)
 
+    @property
+    def is_source_updating(self):
+        return any(map(lambda f: f.is_updating, self.funcs))
+
     def __init__(self, funcs, *args, tfm=None, default=None, union=False, operator=None, name=None):
         if not isinstance(funcs, Sequence):
             funcs = [funcs] + list(args)
diff --git a/curvepy/curve.py b/curvepy/curve.py
index 53bcaee..f79291d 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -47,6 +47,14 @@ class Curve:
     def is_updating(self):
         return not self.update_interval.is_empty
 
+    @property
+    def is_source_updating(self):
+        """
+        Return `True` if a curve on which this one is based has still to end its update.
+        Subclasses based on more than one curve should override this property.
+        """
+        return False
+
     def __init__(self, min_step=None):
         self.name = None
         self._domain = None
@@ -445,10 +453,10 @@ class Curve:
                         callback()
 
     def end_update(self, domain):
-        if domain.is_empty or self._end_update_interval.is_superset_of(domain):
+        if domain.is_empty:
             return
         self._end_update_interval = Interval.union([self._end_update_interval, domain])
-        if not self._end_update_interval.is_superset_of(self._begin_update_interval):
+        if not self._end_update_interval.is_superset_of(self._begin_update_interval) or self.is_source_updating:
             # Keep collecting updates
             return
         
diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..90be09c 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -6,6 +6,10 @@ class Piecewise(Curve):
     def get_domain(self):
         return Interval.union(self.domains)
 
+    @property
+    def is_source_updating(self):
+        return any(map(lambda f: f.is_updating, self.funcs))
+
     def __init__(self, funcs, domains):
         """
         `domains` are assumed to be in ascending order and not overlapping.
-- 
2.43.0


From 72d66c77b05ecf76d1c8eb644addc9d18b6275fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 17/39] fix: announce one update of an extension per update of
 its curve

---
 curvepy/extension/extension.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index aa675be..b575ac6 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -1,3 +1,4 @@
+import math
 from ..curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -36,10 +37,8 @@ class Extension(Curve):
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
@@ -118,14 +117,23 @@ class Extension(Curve):
             (self.end and domain >= self.extension_interval)
 
     def begin_extension_update(self, domain):
-        self.begin_update(Interval.union([domain, self.extension_interval]))
+        self.begin_update(self._update_interval(domain))
 
     def end_extension_update(self, domain):
         # Any update may change the edges of the curve or their tangents
         self._extension_stale = True
         self._extension_interval_stale = True
         self._update_extension_interval()
-        self.end_update(Interval.union([domain, self.extension_interval, self.update_interval]))
+        self.end_update(self._update_interval(domain))
+
+    def _update_interval(self, domain):
+        # Everything beyond an extended edge may change
+        return Interval(
+            -math.inf if self.start else domain.start,
+            math.inf if self.end else domain.end,
+            start_open=self.start or domain.start_open,
+            end_open=self.end or domain.end_open
+        )
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
-- 
2.43.0


From d8a88e0c99a75e52074cea3aec4388f763c48a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 18/39] fix: let a generic curve follow the curve it is based
 on and keep its domain after an update

---
 curvepy/generic.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index 6d85f5f..8e8167a 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -4,14 +4,28 @@ from intervalpy import Interval
 class Generic(Curve):
 
     def get_domain(self):
-        return self._domain
+        return self._generic_domain
 
     def __init__(self, y_func, domain=None, min_step=MIN_STEP):
+        self._observer_token = None
         super().__init__(min_step=min_step)
         self.y_func = y_func
-        self._domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._generic_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        if isinstance(y_func, Curve):
+            self._observer_token = y_func.add_observer(
+                begin=self.begin_generic_update, end=self.end_generic_update, prioritize=True)
+
+    def __del__(self):
+        if self._observer_token is not None:
+            self.y_func.remove_observer(self._observer_token)
+
+    def begin_generic_update(self, domain):
+        self.begin_update(Interval.intersection([domain, self.domain]))
+
+    def end_generic_update(self, domain):
+        self.end_update(Interval.intersection([domain, self.domain]))
 
     def y(self, x):
         if not self.domain.contains(x):
             return None
-        return self.y_func(x)
\ No newline at end of file
+        return self.y_func(x)
-- 
2.43.0


From 2491a834ccd6dd8ab2145c6d9249cbeeac6ab529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 19/39] fix: drop what a scan has read during an update of its
 curve

---
 curvepy/scan.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..d35172d 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -97,6 +97,16 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._reset_stale_scan(domain)
+        self.begin_update(domain)
+
+    def end_scan_update(self, domain):
+        domain = self._update_interval(domain)
+        # Values may have been read during the update
+        self._reset_stale_scan(domain)
+        self.end_update(domain)
+
+    def _reset_stale_scan(self, domain):
         if self.current is not None:
             if domain.start < self.current or (domain.start == self.current and not domain.start_open):
                 self.reset_scan()
@@ -104,11 +114,5 @@ class Scan(Curve):
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
-
-    def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
-        self.end_update(domain)
-
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 92f54903b050fca36d7ab1af515ff879d18f2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 20/39] fix: follow updates of the initial curve of an
 exponential average

---
 curvepy/ema.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/curvepy/ema.py b/curvepy/ema.py
index 1a6479c..9321b69 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -19,6 +19,20 @@ class EMA(Accumulator):
         else:
             self.alpha = degree
         super().__init__(func, self._ema_scan, min_step=min_step, uniform=uniform)
+        if self.init_func is not None:
+            self._init_observer_token = self.init_func.add_observer(
+                begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
+
+    @property
+    def is_source_updating(self):
+        return self.curve.is_updating or (self.init_func is not None and self.init_func.is_updating)
+
+    def __del__(self):
+        super().__del__()
+        try:
+            self.init_func.remove_observer(self._init_observer_token)
+        except Exception:
+            pass
 
     def __repr__(self):
         try:
-- 
2.43.0


From 8c9d453f12a1d405e76c7d3aa1721365b200d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 21/39] fix: announce that a derivative changes beyond an
 edited point

---
 curvepy/curve.py | 10 +++++++++-
 curvepy/map.py   | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index f79291d..aa35520 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -679,7 +679,15 @@ class Curve:
 
     def differential(self, forward=False):
         from .map import Map
-        d = Map(self, lambda x, y: self.d_y(x, forward=forward))
+
+        def update_interval(domain):
+            # The derivative also depends on the next or previous point
+            if forward:
+                return Interval(-math.inf, domain.end, start_open=True, end_open=domain.end_open)
+            else:
+                return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
+
+        d = Map(self, lambda x, y: self.d_y(x, forward=forward), update_interval_tfm=update_interval)
         d.name = 'diff'
         return d
 
diff --git a/curvepy/map.py b/curvepy/map.py
index cda4fbd..320945f 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -6,7 +6,7 @@ class Map(Curve):
     def get_domain(self):
         return self.curve.domain
 
-    def __init__(self, func, tfm, skip_none=False, min_step=MIN_STEP, name=None):
+    def __init__(self, func, tfm, skip_none=False, min_step=MIN_STEP, name=None, update_interval_tfm=None):
         if bool(func.min_step) and func.min_step > min_step:
             min_step = func.min_step
         super().__init__(min_step=min_step)
@@ -20,7 +20,9 @@ class Map(Curve):
         self._map_tfm_with_x = tfm_ags > 1
         self.map_tfm = tfm
 
-        self._observer_token = self.curve.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
+        # By default, a value depends only on the value of `func` at the same position
+        self._update_interval_tfm = update_interval_tfm
+        self._observer_token = self.curve.add_observer(begin=self.begin_map_update, end=self.end_map_update, prioritize=True)
     
     def __repr__(self):
         try:
@@ -32,6 +34,17 @@ class Map(Curve):
     def __del__(self):
         self.curve.remove_observer(self._observer_token)
 
+    def begin_map_update(self, domain):
+        self.begin_update(self._map_update_interval(domain))
+
+    def end_map_update(self, domain):
+        self.end_update(self._map_update_interval(domain))
+
+    def _map_update_interval(self, domain):
+        if self._update_interval_tfm is None:
+            return domain
+        return self._update_interval_tfm(domain)
+
     def y(self, x):
         y = self.curve.y(x)
         if y is None and self.skip_none:
-- 
2.43.0


From 7192bd2f3addee9c8b00691f45b5c30ad8fef05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 22/39] fix: allow observers to be removed by the callbacks of
 other observers

---
 curvepy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index aa35520..7c9a0a5 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -443,7 +443,10 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
+        for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by an earlier callback
+                continue
             _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
             if callback_interval is None or domain.intersects(callback_interval):
                 if callback is not None:
@@ -466,6 +469,9 @@ class Curve:
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by an earlier callback
+                continue
             _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
             if callback_interval is None or update_interval.intersects(callback_interval):
                 if callback is not None:
-- 
2.43.0


From ab3de6213cafc60ed738283d7b1948fd0202afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 23/39] fix: evaluate a series at its own points in spite of
 rounding errors

---
 curvepy/points.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 7151f10..59920b8 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -300,7 +300,13 @@ class Points(Curve):
         if self.is_uniform:
             if self.interval is None:
                 return 0
-            return (x - self._points[0][0]) / self.interval
+            i_ = (x - self._points[0][0]) / self.interval
+            # Rounding errors must not move x off its point
+            i = int(i_)
+            for j in (i, i + 1):
+                if 0 <= j < len(self._points) and x == self._points[j][0]:
+                    return j
+            return i_
         else:
             i1 = _bisect_points(self._points, x)
             i0 = i1 - 1
-- 
2.43.0


From 41476b0e2f1db700988d75b0413037a6c1cd8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 24/39] fix: parse arguments given with @args once

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 7c9a0a5..8310db4 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -976,6 +976,10 @@ class Curve:
                         if len(d) != 1:
                             raise ValueError(f'A decorator (@...) can only have siblings in a fragment')
                         return v
+                    if current_func is None:
+                        # Parsed already
+                        fragment_vals[k] = v
+                        continue
 
                 elif k.startswith('$'):
                     # This is function descriptor
-- 
2.43.0


From d7e9327819e6f43bbb35c3c59caab1b591dfb015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 25/39] fix: find extremas about a reference of zero

---
 curvepy/extremas.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..6314fcb 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -93,11 +93,10 @@ class Extremas(Scan):
         y0 = self.ref_func(x)
         if y0 is None:
             return
-        div = y / y0 - 1
-        if abs(div) <= self.min_deviation:
+        phase = y - y0
+        if abs(phase) <= self.min_deviation * abs(y0):
             # function is too close to reference function
             return
-        phase = y - y0
         if self.possible_extrema is None:
             self.possible_extrema = (x, y)
             self.possible_extrema_phase = phase
-- 
2.43.0


From 030c25b3a115c53bd82ba59721833a5e2ec8b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 26/39] fix: step from extremum to extremum before they have
 been read

---
 curvepy/extremas.py | 4 ++++
 curvepy/scan.py     | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 6314fcb..746247f 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -44,6 +44,8 @@ class Extremas(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        if self.domain.contains(x - min_step):
+            self.scan(x - min_step)
         if self.extrema_interval.contains(x - min_step):
             i = bisect.bisect_left(self.extrema_xs, x - min_step)
             x1 = self.extremas[i][0]
@@ -54,6 +56,8 @@ class Extremas(Scan):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        if self.domain.contains(x + min_step):
+            self.scan(x + min_step)
         if self.extrema_interval.contains(x + min_step):
             i = bisect.bisect_left(self.extrema_xs, x + min_step)
             x1 = self.extremas[i][0]
diff --git a/curvepy/scan.py b/curvepy/scan.py
index d35172d..f76a71f 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -58,7 +58,7 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                current = self.curve.x_next(self.current, min_step=self.min_step, limit=x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
-- 
2.43.0


From b1e2fa936b46136adad756d676d6d55dd1d10592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 27/39] fix: find the extremas again after an update of the
 curve or its reference

---
 curvepy/extremas.py | 47 ++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 746247f..f1ade1a 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,9 +17,14 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
+
+    @property
+    def is_source_updating(self):
+        return self.curve.is_updating or self.ref_func.is_updating
 
     def __del__(self):
+        super().__del__()
         self.ref_func.remove_observer(self._ref_observer_token)
 
     def scanned_y(self, x):
@@ -66,26 +71,21 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
-        # remove stale points
-        for i in reversed(range(len(self.extremas))):
-            x = self.extrema_xs[i]
-            if domain.contains(x):
-                self._remove_extrema_index(i)
-            elif domain.start > x:
-                break
-
-        # scan from last extrema
-        extrema_count = len(self.extremas)
-        if extrema_count == 0:
-            self.current = None
-        else:
-            last_extrema = self.extremas[-1]
-            x = last_extrema[0]
-            self.current = x
-            self.possible_extrema = last_extrema
-            self.possible_extrema_phase = last_extrema[1] - self.ref_func(x)
+    def reset_scan(self):
+        super().reset_scan()
+        self.extremas = []
+        self.extrema_xs = []
+        self._did_update_extremas()
+
+    def begin_scan_update(self, domain):
+        self._reset_stale_scan(self._update_interval(domain))
+        # An update may also confirm or dismiss extremas before it
+        self.begin_update(Interval.infinite())
+
+    def end_scan_update(self, domain):
+        # Values may have been read during the update
+        self._reset_stale_scan(self._update_interval(domain))
+        self.end_update(Interval.infinite())
 
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         points = super().sample_points(domain=domain, min_step=min_step, step=step)
@@ -116,11 +116,6 @@ class Extremas(Scan):
             self.possible_extrema = (x, y)
             self.possible_extrema_phase = phase
     
-    def _remove_extrema_index(self, i):
-        del self.extremas[i]
-        del self.extrema_xs[i]
-        self._did_update_extremas()
-
     def _confirm_extrema(self):
         extrema = self.possible_extrema
 
-- 
2.43.0


From 4ee11446ad4e5383d6e82bdd3aeaa78a2976aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 28/39] fix: replacing a point of a curve with a trend
 duplicated the trend points

---
 curvepy/trend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..1f7be0d 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -90,6 +90,12 @@ class Trend(Scan):
 
         return is_empty
 
+    def reset_scan(self):
+        super().reset_scan()
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
+
     def begin_update(self, domain):
         super().begin_update(domain)
 
-- 
2.43.0


From e7f2f439b4663be973d9f85acecbbc19c726a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 29/39] fix: trend lines ignored the minimum point distance

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 1f7be0d..9493b08 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -228,6 +228,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance, 
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From 2347a2ff4d0feda1a34be95e0964894a02b8cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 30/39] fix: keep coincident points of a trend line in order

---
 curvepy/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 9493b08..ec69c07 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -416,8 +416,8 @@ class TrendLine(Sequence):
                 is_convex = _is_strictly_convex_points(points, y_tol_rel=self.y_tol_rel, y_tol_abs=self.y_tol_abs)
                 if is_coincident or is_convex == self.is_upper_trend:
                     p = extremas[i + 1]
-                    if is_coincident and (len(coincident_points) == 0 or coincident_points[-1][0] != p[0]):
-                        coincident_points.append(p)
+                    if is_coincident:
+                        _insort_point_left(coincident_points, p, no_repeat=True)
                     if not is_coincident:
                         del self._boundary_points[i + 1]
                     del extremas[i + 1]
-- 
2.43.0


From 5445ab34b2594d062f7b74f3b47e00dac93e97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 31/39] fix: a copy of a trend line could not tell which points
 are on it

---
 curvepy/trend.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index ec69c07..1704988 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -369,12 +369,10 @@ class TrendLine(Sequence):
             x_tol_abs=self.x_tol_abs, 
             y_tol_rel=self.y_tol_rel, 
             y_tol_abs=self.y_tol_abs)
-        line.trend_points = list(self.trend_points)
-        line._boundary_points = list(self._boundary_points)
-        line._line = tuple(self._line)
+        # points and predictions are replaced but never modified, unlike the lists of them
+        for name, value in vars(self).items():
+            setattr(line, name, list(value) if isinstance(value, list) else value)
         line.search_interval = self.search_interval.copy()
-        line.intersections = list(self.intersections)
-        line.tangent_points = list(self.tangent_points)
         return line
 
     def copy(self):
-- 
2.43.0


From 7f3d54e138fa593bb12957ee1c01868562f0841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 32/39] fix: relative tolerances of trends were not applied at
 zero and inverted for negative values

---
 curvepy/trend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 1704988..4685117 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -847,7 +847,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_min = y - self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_min_rel = y * (1 - self.y_tol_rel)
+            y_min_rel = y - abs(y) * self.y_tol_rel
             if y_min is None:
                 y_min = y_min_rel
             else:
@@ -861,7 +861,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_max = y + self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_max_rel = y * (1 + self.y_tol_rel)
+            y_max_rel = y + abs(y) * self.y_tol_rel
             if y_max is None:
                 y_max = y_max_rel
             else:
@@ -999,7 +999,7 @@ def _is_strictly_convex_points(points, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and y0 - y < y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and y0 / y - 1 < y_tol_rel:
+    if y_tol_rel is not None and y0 - y < y_tol_rel * abs(y):
         return False
     return True
 
@@ -1019,7 +1019,7 @@ def _is_value_within_tolerance(y, y0, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and abs(y - y0) > y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and abs(y / y0 - 1) > y_tol_rel:
+    if y_tol_rel is not None and abs(y - y0) > max(y_tol_rel * abs(y0), EPSILON_ZERO):
         return False
     return True
 
-- 
2.43.0


From 791a0cd25300261fb5be4bc3540077342dd6d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 33/39] fix: sampling a curve ignored open ends of the domain
 and raised IndexError or TypeError for some

---
 curvepy/curve.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 8310db4..e892b9d 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -191,13 +191,13 @@ class Curve:
             points = [(x_start, self.y(x_start))]
         if step is not None:
             x = x_start + step
-            while x <= x_end:
+            while domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
             x = self.x_next(x_start, min_step=min_step, limit=x_end)
-            while x is not None and x <= x_end:
+            while x is not None and x > x_start and domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
                 x_bin = round(x / min_step) if min_step is not None else x
@@ -210,7 +210,7 @@ class Curve:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
@@ -256,6 +256,8 @@ class Curve:
         low = None
         high = None
         for p in points:
+            if p[1] is None:
+                continue
             if low is None or p[1] < low:
                 low = p[1]
             if high is None or p[1] > high:
-- 
2.43.0


From 2f6796526078f957f3bfc65f1e550496eaccca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:49 +0000
Subject: [PATCH 34/39] fix: stepping along an offset curve compared the limit
 with positions of the original curve

---
 curvepy/offset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 9f125a2..59b3a36 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -66,7 +66,10 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+            curve_limit = self._unoffset_x(limit)
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=curve_limit)
+            if x1 is not None and x1 == curve_limit:
+                return limit
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -78,7 +81,10 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+            curve_limit = self._unoffset_x(limit)
+            x1 = self.curve.x_next(x, min_step=min_step, limit=curve_limit)
+            if x1 is not None and x1 == curve_limit:
+                return limit
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
-- 
2.43.0


From 6c9af643a6e9b12e2e88d3d6e777b80009929336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 35/39] fix: sampling by a minimum step raised an exception
 where steps round to the same multiple

---
 curvepy/curve.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e892b9d..27c5513 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -204,10 +204,8 @@ class Curve:
                 if x_bin == x_end_bin:
                     break
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
-                if x1 is not None:
-                    x1_bin = round(x1 / min_step) if min_step is not None else x1
-                    if x1_bin <= x_bin:
-                        raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
+                if x1 is not None and x1 <= x:
+                    raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
             if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
-- 
2.43.0


From 199d47bf59236ffc7bd92073ca2202b62a556681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:16 +0000
Subject: [PATCH 36/39] fix: minimise and maximise walked past flat bottoms and
 tops

A position with a slope of zero on one side was taken for a slope, so that
the walk turned back and forth until the iterations ran out and returned
whatever point it had reached, which need not be an extremum.
---
 curvepy/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 27c5513..3b1621c 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -291,7 +291,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 <= 0 and dy1 >= 0:
+                if dy0 <= 0 and dy1 >= 0:
                     # Found minimum
                     return x_min
 
@@ -342,7 +342,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 >= 0 and dy1 <= 0:
+                if dy0 >= 0 and dy1 <= 0:
                     # Found maximum
                     return x_max
 
-- 
2.43.0


From 7a6f494bee06a7141c4813b513736d67c55d4ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 37/39] fix: an average over a period longer than the curve was
 given at its end

The window of such an average is never full, so it is undefined just like
an average of more points than there are.
---
 curvepy/sma.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 8bdd1e3..fbfb3ea 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -20,6 +20,11 @@ class SMA(Integral):
                 p = self.period
             else:
                 p = x - d.start
+                if x == d.end:
+                    # The period must not reach further than a step past the end
+                    x0 = self.curve.x_previous(x, min_step=self.min_step)
+                    if x0 is not None and d.start + self.period - self.min_step > x + (x - x0):
+                        return Interval.empty()
         elif self.degree is not None:
             x = d.start
             for _ in range(self.degree - 1):
-- 
2.43.0


From 07f6884c0ea394a6a35b322c7041c7885dd37c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:19 +0000
Subject: [PATCH 38/39] fix: extending a trend line up to an intersection
 raised IndexError without any

A negative index of two or more from the end was looked up in the empty list.
---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 4685117..660377b 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -315,7 +315,7 @@ class TrendLine(Sequence):
             x1 = x0 + (x1 - x0) * width_mult
         if width_max is not None and x1 - x0 > width_max:
             x1 = x0 + width_max
-        if intersection_index is not None and intersection_index + 1 < intersection_count:
+        if intersection_index is not None and intersection_count != 0 and intersection_index + 1 < intersection_count:
             next_intersection = self.intersections[intersection_index + 1]
             if next_intersection[0] < x1:
                 x1 = next_intersection[0]            
-- 
2.43.0


From 305357cb9265e9e1d4e2f5815caaf97c7c1a0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:19 +0000
Subject: [PATCH 39/39] fix: a trend line told crossings before its beginning

Its points of interest were searched for in the interval of the line it was
before, or not at all where it was none, so that a crossing before its first
point was told at the middle of two points, off the line.
---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 660377b..1aeb5c6 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -523,8 +523,8 @@ class TrendLine(Sequence):
         self._line = _line_fit(self.trend_points)
         self._update_trend_tolerance_lines()
         self.reset_points_of_interest()
-        self.update_points_of_interest(underlying_points)
         self.update_interval()
+        self.update_points_of_interest(underlying_points)
         self.reset_prediction()
         self.update_prediction(underlying_points)
 
-- 
2.43.0


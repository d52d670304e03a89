From c3a5c92034ad89ba223c7e949a06b7496781cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 01/10] fix: zero-length segments only overlap segments they
 lie on

---
 src/data/line_segment.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/line_segment.rs b/src/data/line_segment.rs
index f0a49a5..63d3822 100644
--- a/src/data/line_segment.rs
+++ b/src/data/line_segment.rs
@@ -299,7 +299,11 @@ where
     //   inner_between(self.min.inner(), other.min.as_ref(), other.max.as_ref()),
     //   inner_between(self.max.inner(), other.min.as_ref(), other.max.as_ref()),
     // );
-    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear {
+    let l1_parallel = l1_to_b1 == CoLinear && l1_to_b2 == CoLinear;
+    let l2_parallel = l2_to_a1 == CoLinear && l2_to_a2 == CoLinear;
+    // A line segment of zero length is trivially colinear with every point so both
+    // directions must be checked.
+    if l1_parallel && l2_parallel {
       let c_min = self.min.rightmost(other.min);
       let c_max = self.max.leftmost(other.max);
       let order = c_min.inner().cmp(c_max.inner());
-- 
2.43.0


From 26c398882c573e3515cf6eb802a24ec7586e99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 02/10] fix: iterate polygon cursors from the back and report
 exhausted length as zero

---
 src/data/polygon/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 0186f3a..602390c 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -97,6 +97,9 @@ impl<'a, T> Iterator for CursorIter<'a, T> {
 
 impl<T> ExactSizeIterator for CursorIter<'_, T> {
   fn len(&self) -> usize {
+    if self.exhausted {
+      return 0;
+    }
     let pos_head = self.cursor_head.position;
     let pos_tail = self.cursor_tail.position;
     if pos_head.position_id.0 <= pos_tail.position_id.0 {
@@ -116,7 +119,7 @@ impl<T> DoubleEndedIterator for CursorIter<'_, T> {
       if out == self.cursor_head {
         self.exhausted = true;
       } else {
-        self.cursor_tail.move_next();
+        self.cursor_tail.move_prev();
       }
       Some(out)
     }
-- 
2.43.0


From dbdc111e6b98c36740fac1f76e5be76e016672f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 03/10] fix: cursor range excluding its own start is empty

---
 src/data/polygon.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon.rs b/src/data/polygon.rs
index af4ccfe..04052ec 100644
--- a/src/data/polygon.rs
+++ b/src/data/polygon.rs
@@ -762,7 +762,8 @@ impl<'a, T> Cursor<'a, T> {
       Bound::Excluded(end) => CursorIter {
         cursor_head: self,
         cursor_tail: end.prev(),
-        exhausted: false,
+        // An empty range rather than the whole ring.
+        exhausted: self == end,
       },
     }
   }
-- 
2.43.0


From 886e2bc9fe96ffc2c6aa49de1995449e5a950309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 04/10] fix: points on the fan diagonals of a convex polygon
 are inside it

---
 src/data/polygon/convex.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/convex.rs b/src/data/polygon/convex.rs
index 8678c42..1c13156 100644
--- a/src/data/polygon/convex.rs
+++ b/src/data/polygon/convex.rs
@@ -58,7 +58,19 @@ where
     let p1 = poly.point(vertices[lower]);
     let p2 = poly.point(vertices[upper]);
     let triangle = TriangleView::new_unchecked([p0, p1, p2]);
-    triangle.locate(pt)
+    let location = triangle.locate(pt);
+    // The edge from p0 to p2 is a diagonal unless p2 is the last vertex. Points on a
+    // diagonal, except for its end points, are inside the polygon.
+    if location == PointLocation::OnBoundary
+      && upper != vertices.len() - 1
+      && pt != p0
+      && pt != p2
+      && Point::orient(p0, p2, pt) == Orientation::CoLinear
+    {
+      PointLocation::Inside
+    } else {
+      location
+    }
   }
 
   /// Validates the following properties:
-- 
2.43.0


From 86d8c488cdc1e5de1d9c15603037202f87853722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 05/10] fix: gift wrapping stops at a repeated first point

---
 src/algorithms/convex_hull/gift_wrapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/gift_wrapping.rs b/src/algorithms/convex_hull/gift_wrapping.rs
index c43b60d..1e86bce 100644
--- a/src/algorithms/convex_hull/gift_wrapping.rs
+++ b/src/algorithms/convex_hull/gift_wrapping.rs
@@ -106,7 +106,8 @@ where
     }
 
     p = q;
-    if p == leftmost {
+    // Compare points rather than indices: the first point may occur several times.
+    if pts[p] == pts[leftmost] {
       break;
     }
   }
-- 
2.43.0


From 3e05227f9cb6a8d8bbfe164ccb0f34a9476f0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 06/10] fix: hull of a polygon follows its boundary, not its
 storage order

---
 src/algorithms/convex_hull/melkman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/melkman.rs b/src/algorithms/convex_hull/melkman.rs
index e2879d9..82d78f4 100644
--- a/src/algorithms/convex_hull/melkman.rs
+++ b/src/algorithms/convex_hull/melkman.rs
@@ -15,7 +15,8 @@ where
 {
   let mut convex_hull: VecDeque<&Point<T, 2>> = VecDeque::new();
   let mut last_idx = 0;
-  for p in polygon.iter() {
+  // The points may be stored in any order, only the boundary is a simple polyline.
+  for p in polygon.iter_boundary().map(|cursor| cursor.point()) {
     // Creat a deque with the first 3 points
     if convex_hull.len() < 2 {
       convex_hull.push_back(p);
-- 
2.43.0


From d8c92dd5d692c1b242f57ce87baa1b12dcfc2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 07/10] fix: monotone generation with points on the extreme
 chord and none right of it

---
 src/algorithms/polygonization/monotone.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithms/polygonization/monotone.rs b/src/algorithms/polygonization/monotone.rs
index f59210d..17c4523 100644
--- a/src/algorithms/polygonization/monotone.rs
+++ b/src/algorithms/polygonization/monotone.rs
@@ -77,9 +77,15 @@ where
 
   let mut polygon_points: VecDeque<Point<T, 2>> = VecDeque::new();
 
+  // Points on the line from min to max belong to whichever chain would otherwise be a single edge.
+  let all_left = points
+    .iter()
+    .all(|pt| Orientation::new(&min_point, &max_point, pt) != Orientation::ClockWise);
+
   while let Some(curr) = points.pop() {
     match Orientation::new(&min_point, &max_point, &curr) {
       Orientation::ClockWise => polygon_points.push_front(curr),
+      Orientation::CoLinear if all_left => polygon_points.push_front(curr),
       _ => polygon_points.push_back(curr),
     }
   }
-- 
2.43.0


From 67291bd03f53e45a0ac20f8b59a0dd2377e7303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:06 +0000
Subject: [PATCH 08/10] fix: visibility shoots one ray per direction, nearest
 vertex first

---
 src/algorithms/visibility/naive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/visibility/naive.rs b/src/algorithms/visibility/naive.rs
index 55aa6f0..707d0d9 100644
--- a/src/algorithms/visibility/naive.rs
+++ b/src/algorithms/visibility/naive.rs
@@ -95,7 +95,13 @@ where
 {
   // FIXME: We want to iterate over all vertices, not just boundary vertices.
   let mut vertices: Vec<Cursor<'_, T>> = polygon.iter_boundary().collect();
-  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
+  // Rays towards vertices in the same direction are identical. Only shoot one, at the nearest.
+  vertices.sort_by(|a, b| {
+    point
+      .ccw_cmp_around(a, b)
+      .then_with(|| point.cmp_distance_to(a, b))
+  });
+  vertices.dedup_by(|a, b| point.ccw_cmp_around(a, b) == Ordering::Equal);
 
   let mut polygon_points = Vec::new();
   for vertex in vertices {
-- 
2.43.0


From d5e8f770abdb57e10fb74b9b515db00f1aea4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 09/10] fix: Point::all_colinear when the list starts with
 repeated points

---
 src/data/point.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/point.rs b/src/data/point.rs
index cdc17b0..bb64600 100644
--- a/src/data/point.rs
+++ b/src/data/point.rs
@@ -303,12 +303,16 @@ impl<T: PolygonScalar> Point<T> {
   }
 
   pub fn all_colinear(pts: &[Point<T>]) -> bool {
-    if pts.len() < 3 {
+    // Two distinct points are needed to define a line.
+    let Some(first) = pts.first() else {
       return true;
-    }
+    };
+    let Some(second) = pts.iter().find(|pt| *pt != first) else {
+      return true;
+    };
     pts
       .iter()
-      .all(|pt| Point::orient(&pts[0], &pts[1], pt).is_colinear())
+      .all(|pt| Point::orient(first, second, pt).is_colinear())
   }
 
   /// Docs?
-- 
2.43.0


From 0ce088ce82cd2f7f3d7b99a9155615c8c5361c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 10/10] fix: turn relative to a perpendicular direction for
 rug::Integer

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d98de17..fa9943c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -461,7 +461,7 @@ impl PolygonScalar for rug::Integer {
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
   fn cmp_perp_vector_slope(vector: &[Self; 2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
-    let new_x = rug::Integer::from(&p[0] + &vector[1]);
+    let new_x = rug::Integer::from(&p[0] - &vector[1]);
     let new_y = rug::Integer::from(&p[1] + &vector[0]);
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
-- 
2.43.0


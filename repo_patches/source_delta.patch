From ceab0d71b959c387774e5b0cceccf2335ce5f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 01/32] fix: report the touching end point of arcs on one
 circle with opposing directions

---
 cavalier_contours/src/polyline/pline_seg_intersect.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 7433bf7..f32ce08 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -464,8 +464,9 @@ where
                     OneIntersect { point: v1.pos() }
                 }
                 (false, true) => {
-                    // only touch at start of arc2
-                    OneIntersect { point: u1.pos() }
+                    // only touch at end of arc1 (start of arc2 after making the arc sweeps go the
+                    // same direction, which is u2 if the arcs have opposing directions)
+                    OneIntersect { point: v2.pos() }
                 }
                 (false, false) => {
                     // not just the end points touch, determine how the arcs overlap
-- 
2.43.0


From 09e70aa3cd4ee5184e2c75616f18b305b7c1fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 02/32] fix: end bulge of overlapping boolean slices ending in
 a partly split arc

---
 .../src/polyline/internal/pline_intersects.rs    | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_intersects.rs b/cavalier_contours/src/polyline/internal/pline_intersects.rs
index 0471a66..80be404 100644
--- a/cavalier_contours/src/polyline/internal/pline_intersects.rs
+++ b/cavalier_contours/src/polyline/internal/pline_intersects.rs
@@ -594,7 +594,9 @@ where
                     } else {
                         // slice is not on one pline2 segment
                         // updated_start positioned at start_intr.point1 and connects with start_u2
-                        // updated_end positioned at end_intr.point1 and connects with end_intr.point2
+                        // updated_end positioned at end_u1 and connects with end_intr.point2 (the
+                        // slice covers the last segment starting from end_u1, end_intr may only be
+                        // the last of multiple intersects along the segment)
                         // end_point positioned at end_intr.point2
                         let updated_start = {
                             let split1 = seg_split_at_point(
@@ -611,15 +613,9 @@ where
                             let end_u2 =
                                 pline2.at(pline2.next_wrapping_index(end_intr.start_index2));
 
-                            let split1 =
-                                seg_split_at_point(end_u1, end_u2, end_intr.point1, pos_equal_eps);
-                            let split2 = seg_split_at_point(
-                                split1.split_vertex,
-                                end_u2,
-                                end_intr.point2,
-                                pos_equal_eps,
-                            );
-                            split2.updated_start
+                            let split =
+                                seg_split_at_point(end_u1, end_u2, end_intr.point2, pos_equal_eps);
+                            split.updated_start
                         };
 
                         Self {
-- 
2.43.0


From e407e0e25866d8a7036cd1e9a24fe9b542378cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 03/32] fix: test whole raw offset polyline for validity when
 it has no intersects

---
 .../src/polyline/internal/pline_offset.rs     | 53 ++++++++++++-------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index a542f3c..7624158 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -718,16 +718,23 @@ where
 
     let mut query_stack = Vec::new();
     if self_intrs.is_empty() {
-        // no self intersects, test point on polyline is valid
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // no self intersects, test all segments on polyline are valid (testing only one point is not
+        // enough, when the offset exactly collapses the polyline parts of it may not be valid)
+        let mut point_valid = |point: Vector2<T>| -> bool {
+            point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                point,
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        };
+        if !raw_offset_polyline
+            .iter_segments()
+            .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
+        {
             // not valid
             return result;
         }
@@ -1103,16 +1110,22 @@ where
     let mut query_stack = Vec::with_capacity(8);
 
     if intersects_lookup.is_empty() {
-        // test a point on raw offset polyline
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // test all segments on raw offset polyline
+        let mut point_valid = |point: Vector2<T>| -> bool {
+            point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                point,
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        };
+        if !raw_offset_polyline
+            .iter_segments()
+            .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
+        {
             return result;
         }
 
-- 
2.43.0


From afe2d11a4f0cd228eb96cbc9cf7b99c8c2b409d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 04/32] fix: do not treat points opposite of an arc with very
 small sweep as within its sweep

---
 cavalier_contours/src/core/math/base_math.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index bc71e77..2b3c65b 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -445,6 +445,18 @@ pub fn point_within_arc_sweep<T>(
 where
     T: Real,
 {
+    let start_v = arc_start - center;
+    let end_v = arc_end - center;
+    let point_v = point - center;
+    // a point on the opposite side of the center can be fuzzy coincident with both the start and end
+    // of an arc that has a very small sweep, it is not within the sweep
+    if start_v.dot(end_v) > T::zero()
+        && start_v.dot(point_v) < T::zero()
+        && end_v.dot(point_v) < T::zero()
+    {
+        return false;
+    }
+
     if is_clockwise {
         is_right_or_coincident_eps(center, arc_start, point, epsilon)
             && is_left_or_coincident_eps(center, arc_end, point, epsilon)
-- 
2.43.0


From 84b94ccb4ea202528bbd37f07b7d63f3b659120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 05/32] fix: do not miss open polyline end circle intersects at
 raw offset vertexes

---
 .../src/polyline/internal/pline_offset.rs     | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 7624158..ccbfc60 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -941,9 +941,19 @@ fn visit_circle_intersects<P, T, F>(
 {
     let pos_equal_eps = options.pos_equal_eps;
 
-    let is_valid_line_intr = |t: T| -> bool {
+    // gets intersect point if valid
+    let valid_line_intr = |v1: PlineVertex<T>, v2: PlineVertex<T>, t: T| -> Option<Vector2<T>> {
+        let point = point_from_parametric(v1.pos(), v2.pos(), t);
+        // not a false intersect if just past the end of seg due to floating point error (must not be
+        // missed since intersects at start of seg are skipped)
+        if point.fuzzy_eq_eps(v2.pos(), pos_equal_eps) {
+            return Some(v2.pos());
+        }
         // skip false intersects and intersects at start of seg
-        !is_false_intersect(t) && t.abs() > pos_equal_eps
+        if is_false_intersect(t) || t.abs() <= pos_equal_eps {
+            return None;
+        }
+        Some(point)
     };
 
     let is_valid_arc_intr = |arc_center: Vector2<T>,
@@ -984,16 +994,16 @@ fn visit_circle_intersects<P, T, F>(
             ) {
                 LineCircleIntr::NoIntersect => {}
                 LineCircleIntr::TangentIntersect { t0 } => {
-                    if is_valid_line_intr(t0) {
-                        visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
+                    if let Some(point) = valid_line_intr(v1, v2, t0) {
+                        visitor(start_index, point);
                     }
                 }
                 LineCircleIntr::TwoIntersects { t0, t1 } => {
-                    if is_valid_line_intr(t0) {
-                        visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
+                    if let Some(point) = valid_line_intr(v1, v2, t0) {
+                        visitor(start_index, point);
                     }
-                    if is_valid_line_intr(t1) {
-                        visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t1));
+                    if let Some(point) = valid_line_intr(v1, v2, t1) {
+                        visitor(start_index, point);
                     }
                 }
             }
-- 
2.43.0


From 3fdbdeecce7f6917217bbdb1c6da14177bf9b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 06/32] fix: decide validity of raw offset polyline without
 intersects at its longest segment

---
 .../src/polyline/internal/pline_offset.rs     | 71 ++++++++++---------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index ccbfc60..b1e7831 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -687,6 +687,23 @@ where
     point_valid
 }
 
+/// Midpoint of the segment with the longest chord.
+fn longest_seg_midpoint<P, T>(polyline: &P) -> Vector2<T>
+where
+    P: PlineSource<Num = T> + ?Sized,
+    T: Real,
+{
+    let mut segs = polyline.iter_segments();
+    let mut longest = segs.next().expect("at least one segment");
+    let chord = |seg: &(PlineVertex<T>, PlineVertex<T>)| dist_squared(seg.0.pos(), seg.1.pos());
+    for seg in segs {
+        if chord(&seg) > chord(&longest) {
+            longest = seg;
+        }
+    }
+    seg_midpoint(longest.0, longest.1)
+}
+
 pub fn slices_from_raw_offset<P, R, T>(
     original_polyline: &P,
     raw_offset_polyline: &R,
@@ -718,23 +735,17 @@ where
 
     let mut query_stack = Vec::new();
     if self_intrs.is_empty() {
-        // no self intersects, test all segments on polyline are valid (testing only one point is not
-        // enough, when the offset exactly collapses the polyline parts of it may not be valid)
-        let mut point_valid = |point: Vector2<T>| -> bool {
-            point_valid_for_offset(
-                original_polyline,
-                offset,
-                orig_polyline_index,
-                point,
-                &mut query_stack,
-                pos_equal_eps,
-                offset_dist_eps,
-            )
-        };
-        if !raw_offset_polyline
-            .iter_segments()
-            .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
-        {
+        // no self intersects, test point on polyline is valid (a vertex is not enough, when the offset
+        // exactly collapses the polyline the vertex may be valid while the segments are not)
+        if !point_valid_for_offset(
+            original_polyline,
+            offset,
+            orig_polyline_index,
+            longest_seg_midpoint(raw_offset_polyline),
+            &mut query_stack,
+            pos_equal_eps,
+            offset_dist_eps,
+        ) {
             // not valid
             return result;
         }
@@ -1120,22 +1131,16 @@ where
     let mut query_stack = Vec::with_capacity(8);
 
     if intersects_lookup.is_empty() {
-        // test all segments on raw offset polyline
-        let mut point_valid = |point: Vector2<T>| -> bool {
-            point_valid_for_offset(
-                original_polyline,
-                offset,
-                orig_polyline_index,
-                point,
-                &mut query_stack,
-                pos_equal_eps,
-                offset_dist_eps,
-            )
-        };
-        if !raw_offset_polyline
-            .iter_segments()
-            .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
-        {
+        // test a point on raw offset polyline
+        if !point_valid_for_offset(
+            original_polyline,
+            offset,
+            orig_polyline_index,
+            longest_seg_midpoint(raw_offset_polyline),
+            &mut query_stack,
+            pos_equal_eps,
+            offset_dist_eps,
+        ) {
             return result;
         }
 
-- 
2.43.0


From 0faffa32ea453aa91a2c7b53a95c602fce1dcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 07/32] fix: order two intersects of arc segments along the
 second segment

---
 .../src/polyline/pline_seg_intersect.rs           | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index f32ce08..8f46743 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -364,7 +364,7 @@ where
 
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
-            if pt1_in_sweep && pt2_in_sweep {
+            let intr = if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => TwoIntersects { point1, point2 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => {
@@ -421,6 +421,19 @@ where
                         point2: end_pt2,
                     },
                 }
+            };
+
+            // return points ordered according to second segment direction
+            match intr {
+                TwoIntersects { point1, point2 }
+                    if dist_squared(point2, u1.pos()) < dist_squared(point1, u1.pos()) =>
+                {
+                    TwoIntersects {
+                        point1: point2,
+                        point2: point1,
+                    }
+                }
+                intr => intr,
             }
         }
         CircleCircleIntr::Overlapping => {
-- 
2.43.0


From a7941b5a62ede41124cf1f62630cd25c636815a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 08/32] fix: path length and closest point of arc segments with
 repeat position

An arc segment whose start and end are at the same position has no radius or center, path_length
and find_point_at_path_length gave NaN (or failed the debug assertion in seg_arc_radius_and_center)
because seg_length only recognized the case when the bulges were equal too.
---
 cavalier_contours/src/polyline/pline_seg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_seg.rs b/cavalier_contours/src/polyline/pline_seg.rs
index be73022..49f6968 100644
--- a/cavalier_contours/src/polyline/pline_seg.rs
+++ b/cavalier_contours/src/polyline/pline_seg.rs
@@ -228,6 +228,11 @@ where
         return line_seg_closest_point(v1.pos(), v2.pos(), point);
     }
 
+    if v1.pos().fuzzy_eq(v2.pos()) {
+        // repeat position, no arc to compute radius and center from
+        return v1.pos();
+    }
+
     let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
     if point.fuzzy_eq_eps(arc_center, epsilon) {
         // avoid normalizing zero length vector (point is at center, just return start point)
@@ -389,7 +394,7 @@ pub fn seg_length<T>(v1: PlineVertex<T>, v2: PlineVertex<T>) -> T
 where
     T: Real,
 {
-    if v1.fuzzy_eq(v2) {
+    if v1.pos().fuzzy_eq(v2.pos()) {
         return T::zero();
     }
 
-- 
2.43.0


From a7885562efaeb293425b9a2e1e15bd5b51ea0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 09/32] fix: closest point on an arc for points near the arc
 center

The fuzzy sweep test compared an unnormalized cross product to epsilon, so for points near the
center of an arc directions far outside of its sweep counted as within it and the point returned
was not on the arc.
---
 cavalier_contours/src/polyline/pline_seg.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg.rs b/cavalier_contours/src/polyline/pline_seg.rs
index 49f6968..d54458f 100644
--- a/cavalier_contours/src/polyline/pline_seg.rs
+++ b/cavalier_contours/src/polyline/pline_seg.rs
@@ -239,17 +239,20 @@ where
         return v1.pos();
     }
 
+    // scaling epsilon by the distance to the center so the fuzzy inclusion does not grow as the point
+    // gets nearer to the center (epsilon is then the distance along the arc past its end points)
+    let v_to_point = point - arc_center;
+    let center_dist = v_to_point.length();
     if point_within_arc_sweep(
         arc_center,
         v1.pos(),
         v2.pos(),
         v1.bulge_is_neg(),
         point,
-        epsilon,
+        epsilon * center_dist,
     ) {
         // closest point is on the arc
-        let v_to_point = (point - arc_center).normalize();
-        return v_to_point.scale(arc_radius) + arc_center;
+        return v_to_point.normalize().scale(arc_radius) + arc_center;
     }
 
     // closest point is one of the ends
-- 
2.43.0


From 7ae804da802e36925369cc885db5699608eb505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 10/32] fix: last vertex of an empty polyline is None, not an
 integer underflow

---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index b74e547..ff6408a 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -108,7 +108,7 @@ pub trait PlineSource {
     /// Get the last vertex of the polyline or `None` if polyline is empty.
     #[inline]
     fn last(&self) -> Option<PlineVertex<Self::Num>> {
-        self.get(self.vertex_count() - 1)
+        self.get(self.vertex_count().checked_sub(1)?)
     }
 
     /// Total number of segments in the polyline.
-- 
2.43.0


From c04259fb0a9440a90c1ed1aaa4a0e54a950e10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 11/32] fix: remove_repeat_pos keeps one vertex of a closed
 polyline with all vertexes at one position

---
 cavalier_contours/src/polyline/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index ff6408a..902873f 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -437,8 +437,9 @@ pub trait PlineSource {
             }
         }
 
-        // check if is_closed and last repeats position on first
+        // check if is_closed and last repeats position on first (the only vertex left is kept)
         if self.is_closed()
+            && result.as_ref().is_none_or(|r| r.vertex_count() > 1)
             && self
                 .last()
                 .unwrap()
-- 
2.43.0


From 94b04ecade84b17e87e48371d4dbc15665582969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 12/32] fix: remove_redundant keeps needed vertexes after
 repeats at the start and simplifies across the start

A run of repeats followed by one other vertex lost that vertex, repeats at the start made the
loop run past the end of an open polyline, a one vertex result panicked, and an already merged
first arc was tested with its old bulge.
---
 cavalier_contours/src/polyline/traits.rs | 28 ++++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 902873f..eed899d 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -545,9 +545,11 @@ pub trait PlineSource {
         let mut i = 2;
         while v1.pos().fuzzy_eq_eps(v2.pos(), pos_equal_eps) {
             v1.bulge = v2.bulge;
-            // check for reaching the end of polyline
+            // if end is reached return polyline with the only vertex
             if i >= vc {
-                break;
+                let mut result = Self::OutputPolyline::with_capacity(1, self.is_closed());
+                result.add_vertex(v1);
+                return Some(result);
             }
             v2 = self.at(i);
             i += 1;
@@ -560,18 +562,14 @@ pub trait PlineSource {
             pl.add_vertex(v1);
             Some(pl)
         };
-        // if end is reached return polyline with the only vertex
-        if i >= vc {
-            return result;
-        }
-
         let mut v1_v2_arc: Option<(Self::Num, Vector2<Self::Num>)> = None;
         let mut v1_bulge_is_zero = v1.bulge_is_zero();
         let mut v2_bulge_is_zero = v2.bulge_is_zero();
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - 2 };
+        // closed polyline wraps around to the first vertex (with the bulge of its last repeat)
+        let wrap_around = self.is_closed().then_some((vc, v1));
 
         enum RemoveRedundantCase<U>
         where
@@ -588,10 +586,9 @@ pub trait PlineSource {
         // loop through processing/considering to discard the middle vertex v2
         for (i, v3) in self
             .iter_vertexes()
-            .cycle()
             .enumerate()
             .skip(i)
-            .take(iter_count)
+            .chain(wrap_around)
         {
             use RemoveRedundantCase::*;
             let state: RemoveRedundantCase<Self::Num> =
@@ -600,8 +597,7 @@ pub trait PlineSource {
                     DiscardVertex
                 } else if v1_bulge_is_zero && v2_bulge_is_zero {
                     // two line segments in a row, check if collinear
-                    let is_final_vertex_for_open = !self.is_closed() && i == vc;
-                    if !is_final_vertex_for_open && is_collinear_same_dir(&v1, &v2, &v3) {
+                    if is_collinear_same_dir(&v1, &v2, &v3) {
                         DiscardVertex
                     } else {
                         IncludeVertex
@@ -695,6 +691,8 @@ pub trait PlineSource {
         if self.is_closed() {
             // handle wrap around middle vertex at start
             match result.as_mut() {
+                // nothing left to wrap around
+                Some(pl) if pl.vertex_count() < 2 => return result,
                 Some(pl) => {
                     if pl
                         .last()
@@ -728,6 +726,12 @@ pub trait PlineSource {
             // v1 => last
             // v2 => first
             // v3 => second
+            if let Some(pl) = result.as_ref() {
+                // bulge of the first vertex may have been updated
+                v2 = pl.at(0);
+                v2_bulge_is_zero = v2.bulge_is_zero();
+                v2_bulge_is_pos = v2.bulge_is_pos();
+            }
             let v3 = match result.as_ref() {
                 Some(pl) => pl.at(1),
                 None => self.at(1),
-- 
2.43.0


From 59c210128e6b370ace084bfd1a42720c2f1c2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 13/32] fix: arcs_to_approx_lines handles repeat positions and
 negative error distance

---
 cavalier_contours/src/polyline/traits.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index eed899d..0094ba0 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1219,8 +1219,14 @@ pub trait PlineSource {
                 continue;
             }
 
+            if v1.pos().fuzzy_eq(v2.pos()) {
+                // repeat position, no arc to approximate
+                result.add(v1.x, v1.y, Self::Num::zero());
+                continue;
+            }
+
             let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
-            if arc_radius.fuzzy_lt(error_distance) {
+            if arc_radius.fuzzy_lt(abs_error) {
                 result.add(v1.x, v1.y, Self::Num::zero());
                 continue;
             }
-- 
2.43.0


From a4be96688e5e323e490b816bb453bbbd741a9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 14/32] fix: freeing a polyline list frees all polylines owned
 by it

---
 cavalier_contours_ffi/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..9a15994 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,11 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            for pline in Box::from_raw(plinelist).0 {
+                cavc_pline_f(pline);
+            }
+        }
     }
 }
 
-- 
2.43.0


From df21172e96bcd42c4897c38573c6ee2f7d00c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 15/32] fix: vertex data of zero vertexes may be at a null
 pointer

---
 cavalier_contours_ffi/src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 9a15994..5800209 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -460,9 +460,10 @@ pub unsafe extern "C" fn cavc_pline_get_vertex_data(
             return 1;
         }
 
-        let buffer = unsafe { slice::from_raw_parts_mut(vertex_data, (*pline).0.vertex_count()) };
-        for (i, v) in unsafe { (*pline).0.iter_vertexes().enumerate() } {
-            buffer[i] = cavc_vertex::from_internal(v);
+        unsafe {
+            for (i, v) in (*pline).0.iter_vertexes().enumerate() {
+                vertex_data.add(i).write(cavc_vertex::from_internal(v));
+            }
         }
         0
     })
@@ -496,10 +497,12 @@ pub unsafe extern "C" fn cavc_pline_set_vertex_data(
 
         unsafe {
             (*pline).0.clear();
-            let buffer = slice::from_raw_parts(vertex_data, n_vertexes as usize);
-            (*pline).0.reserve(buffer.len());
-            for v in buffer {
-                (*pline).0.add(v.x, v.y, v.bulge);
+            if !vertex_data.is_null() && n_vertexes != 0 {
+                let buffer = slice::from_raw_parts(vertex_data, n_vertexes as usize);
+                (*pline).0.reserve(buffer.len());
+                for v in buffer {
+                    (*pline).0.add(v.x, v.y, v.bulge);
+                }
             }
         }
 
-- 
2.43.0


From 34c985398ee4ce9ceb3a489fca396008e6f6363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 16/32] fix: vectors serialize as a tuple of their two elements

---
 cavalier_contours/src/core/math/vector2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/vector2.rs b/cavalier_contours/src/core/math/vector2.rs
index 273952d..21b7943 100644
--- a/cavalier_contours/src/core/math/vector2.rs
+++ b/cavalier_contours/src/core/math/vector2.rs
@@ -124,7 +124,7 @@ mod serde_impl {
         where
             S: serde::Serializer,
         {
-            let mut tuple = serializer.serialize_tuple(3)?;
+            let mut tuple = serializer.serialize_tuple(2)?;
             tuple.serialize_element(&self.x)?;
             tuple.serialize_element(&self.y)?;
             tuple.end()
-- 
2.43.0


From 6b87b9ddb04c0edd49d7bd33ca0930669d7db0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 17/32] fix: lookup by path length on an empty polyline is an
 error instead of a panic

---
 cavalier_contours/src/polyline/traits.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 0094ba0..29c7285 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1517,13 +1517,16 @@ pub trait PlineSource {
     /// on, e.g. if point is on the second segment of the polyline then `seg_index = 1`.
     ///
     /// Returns `Err((total_path_length))` if `target_path_length` is greater than total path
-    /// length of the polyline.
+    /// length of the polyline or if the polyline is empty.
     fn find_point_at_path_length(
         &self,
         target_path_length: Self::Num,
     ) -> Result<(usize, Vector2<Self::Num>), Self::Num> {
         if target_path_length <= Self::Num::zero() {
-            return Ok((0, self.at(0).pos()));
+            return match self.get(0) {
+                Some(v) => Ok((0, v.pos())),
+                None => Err(Self::Num::zero()),
+            };
         }
 
         let mut acc_length = Self::Num::zero();
-- 
2.43.0


From c140f0a930c1a9c4d5b0ce57735a0270be2a9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 18/32] fix: overlapping slices that are closed loops are not
 joined with each other

---
 cavalier_contours/src/polyline/internal/pline_intersects.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_intersects.rs b/cavalier_contours/src/polyline/internal/pline_intersects.rs
index 80be404..3a492ab 100644
--- a/cavalier_contours/src/polyline/internal/pline_intersects.rs
+++ b/cavalier_contours/src/polyline/internal/pline_intersects.rs
@@ -725,7 +725,11 @@ where
         // check if last overlapping slice connects with first
         let last_slice_end = result.last().unwrap().view_data.end_point;
         let first_slice_begin = result[0].view_data.updated_start.pos();
-        if last_slice_end.fuzzy_eq_eps(first_slice_begin, pos_equal_eps) {
+        // slices that already form a closed loop are complete (self touching polylines)
+        if !result[0].is_loop
+            && !result.last().unwrap().is_loop
+            && last_slice_end.fuzzy_eq_eps(first_slice_begin, pos_equal_eps)
+        {
             // they do connect, join them together by updating the first slice and removing the last
             let last_slice = result.pop().unwrap();
             let first_slice = &mut result[0];
-- 
2.43.0


From 702128ab04a2cc6e5c93b298057d5aef38186396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 19/32] fix: offset results never hold polylines of a single
 vertex

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index b1e7831..259ab39 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1387,7 +1387,9 @@ where
             pline.remove_last();
         }
 
-        result.push(pline);
+        if pline.vertex_count() > 1 {
+            result.push(pline);
+        }
 
         return result;
     }
@@ -1486,7 +1488,9 @@ where
                         current_pline.set_is_closed(true);
                     }
 
-                    result.push(current_pline);
+                    if current_pline.vertex_count() > 1 {
+                        result.push(current_pline);
+                    }
                 }
                 break;
             }
-- 
2.43.0


From 70d9681e61d88ed36abe950dc997ce27b3a00e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 20/32] fix: shape offset skips stitched loops that collapsed
 to one vertex

---
 cavalier_contours/src/shape_algorithms/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cavalier_contours/src/shape_algorithms/mod.rs b/cavalier_contours/src/shape_algorithms/mod.rs
index e231206..666bc2c 100644
--- a/cavalier_contours/src/shape_algorithms/mod.rs
+++ b/cavalier_contours/src/shape_algorithms/mod.rs
@@ -583,6 +583,10 @@ where
                         current_pline.remove_last();
                         current_pline.set_is_closed(true);
                     }
+                    if current_pline.vertex_count() < 2 {
+                        // collapsed to a single position, nothing remains
+                        break;
+                    }
                     let is_ccw = current_pline.orientation() == PlineOrientation::CounterClockwise;
                     if is_ccw {
                         ccw_plines_result.push(IndexedPolyline::new(current_pline));
-- 
2.43.0


From 3397845a579770c7124ff5f6bfb23012e2ad86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 21/32] fix: remove_redundant of a closed polyline that
 collapses to one position at the end

---
 cavalier_contours/src/polyline/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 29c7285..9d3c801 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -701,6 +701,10 @@ pub trait PlineSource {
                         .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
                     {
                         pl.remove_last();
+                        if pl.vertex_count() < 2 {
+                            // nothing left to wrap around
+                            return result;
+                        }
                     }
                 }
                 None => {
-- 
2.43.0


From e2749d2505d72f0a93313487c5301651b4a55126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 22/32] fix: overlap of collinear lines is measured along the
 larger component

---
 cavalier_contours/src/core/math/line_line_intersect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/line_line_intersect.rs b/cavalier_contours/src/core/math/line_line_intersect.rs
index b9ac959..c93c9e2 100644
--- a/cavalier_contours/src/core/math/line_line_intersect.rs
+++ b/cavalier_contours/src/core/math/line_line_intersect.rs
@@ -188,7 +188,8 @@ where
 
     // neither segment is a point, check if they overlap
     let w2 = v2 - u1;
-    let (mut seg2_t0, mut seg2_t1) = if u.x.fuzzy_eq_zero_eps(eps) {
+    // use larger component for calculation to avoid adding error caused by a small denominator
+    let (mut seg2_t0, mut seg2_t1) = if u.x.abs() < u.y.abs() {
         (w.y / u.y, w2.y / u.y)
     } else {
         (w.x / u.x, w2.x / u.x)
-- 
2.43.0


From 39c847882e306fc78ed0e09b541d0d96894e50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 23/32] fix: a point is not within the sweep of a small arc
 only because the arc is small

---
 cavalier_contours/src/core/math/base_math.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index 2b3c65b..a70de22 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -457,6 +457,11 @@ where
         return false;
     }
 
+    // the tests below compare areas (distance multiplied by the radius), for small arcs the epsilon is
+    // scaled by the radius otherwise every point would be considered fuzzy within the sweep
+    let radius = num_traits::real::Real::max(start_v.length(), epsilon);
+    let epsilon = epsilon * num_traits::real::Real::min(radius, T::one());
+
     if is_clockwise {
         is_right_or_coincident_eps(center, arc_start, point, epsilon)
             && is_left_or_coincident_eps(center, arc_end, point, epsilon)
-- 
2.43.0


From 664a4a22b4cc2304af466e46b87e808ae7f51d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 24/32] fix: short lines are not parallel or collinear only
 because they are short

---
 cavalier_contours/src/core/math/line_line_intersect.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_line_intersect.rs b/cavalier_contours/src/core/math/line_line_intersect.rs
index c93c9e2..62ceb31 100644
--- a/cavalier_contours/src/core/math/line_line_intersect.rs
+++ b/cavalier_contours/src/core/math/line_line_intersect.rs
@@ -120,8 +120,14 @@ where
     let seg1_length = (v2 - v1).length();
     let seg2_length = (u2 - u1).length();
 
+    // perpendicular products are areas, when the segments are short the epsilon is scaled so they are
+    // not considered parallel or collinear only because they are short
+    let max_length = num_traits::real::Real::max(seg1_length, seg2_length);
+    let area_eps = eps
+        * num_traits::real::Real::min(num_traits::real::Real::max(max_length, eps), T::one());
+
     // threshold check here to avoid almost parallel lines resulting in very distant intersection
-    if !v_pdot_u.fuzzy_eq_zero_eps(eps) {
+    if !v_pdot_u.fuzzy_eq_zero_eps(area_eps) {
         // segments not parallel or collinear
         let seg1_t = u.perp_dot(w) / v_pdot_u;
         let seg2_t = v.perp_dot(w) / v_pdot_u;
@@ -138,7 +144,7 @@ where
     let u_pdot_w = u.perp_dot(w);
 
     // threshold check here, we consider almost parallel lines to be parallel
-    if !v_pdot_w.fuzzy_eq_zero_eps(eps) || !u_pdot_w.fuzzy_eq_zero_eps(eps) {
+    if !v_pdot_w.fuzzy_eq_zero_eps(area_eps) || !u_pdot_w.fuzzy_eq_zero_eps(area_eps) {
         // parallel and not collinear so no intersect
         return NoIntersect;
     }
-- 
2.43.0


From dd1d36dfbf2fcf76dd66705460680d03800c4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 25/32] fix: offset joins almost straight short lines with the
 turn and not with a half circle

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 259ab39..c2ef4c8 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -173,6 +173,12 @@ fn line_line_join<T, O>(
         connect_using_arc(s1, s2, connection_arcs_ccw, result, pos_equal_eps);
     } else {
         match line_line_intr(v1.pos(), v2.pos(), u1.pos(), u2.pos(), pos_equal_eps) {
+            LineLineIntr::NoIntersect
+                if (v2.pos() - v1.pos()).dot(u2.pos() - u1.pos()) > T::zero() =>
+            {
+                // fuzzy parallel lines going in the same direction, turn at the vertex is very small
+                connect_using_arc(s1, s2, connection_arcs_ccw, result, pos_equal_eps);
+            }
             LineLineIntr::NoIntersect => {
                 // parallel lines, join with half circle
                 let sp = s1.v2.pos();
-- 
2.43.0


From 3f1c7fa8ba55b7a8c2848ed518439ecb2e9e8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 26/32] fix: removing redundant vertexes keeps short spikes
 that go back

---
 cavalier_contours/src/polyline/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 9d3c801..ef4d701 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -532,8 +532,9 @@ pub trait PlineSource {
                 let collinear =
                     (v1.x * (v2.y - v3.y) + v2.x * (v3.y - v1.y) + v3.x * (v1.y - v2.y))
                         .fuzzy_eq_zero_eps(pos_equal_eps);
+                // no fuzzy compare, a short spike going back is collinear but not in the same direction
                 let same_direction =
-                    (v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > -pos_equal_eps;
+                    (v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > Self::Num::zero();
 
                 collinear && same_direction
             };
-- 
2.43.0


From a985d425e395e58f539ad4f9d4ae910c5acb5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 27/32] fix: do not crash the UI when filling fails to
 tessellate

---
 cavalier_contours_ui/src/plotting/plines.rs | 27 ++++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cavalier_contours_ui/src/plotting/plines.rs b/cavalier_contours_ui/src/plotting/plines.rs
index 761d630..e3eec67 100644
--- a/cavalier_contours_ui/src/plotting/plines.rs
+++ b/cavalier_contours_ui/src/plotting/plines.rs
@@ -224,18 +224,21 @@ where
         if self.fill_color != epaint::Color32::TRANSPARENT {
             let mut lyon_mesh: VertexBuffers<_, u32> = VertexBuffers::new();
             let mut fill_tess = FillTessellator::new();
-            fill_tess
-                .tessellate_path(
-                    path.as_slice(),
-                    &FillOptions::DEFAULT,
-                    &mut BuffersBuilder::new(
-                        &mut lyon_mesh,
-                        VertexConstructor {
-                            color: self.fill_color,
-                        },
-                    ),
-                )
-                .unwrap();
+            let fill_result = fill_tess.tessellate_path(
+                path.as_slice(),
+                &FillOptions::DEFAULT,
+                &mut BuffersBuilder::new(
+                    &mut lyon_mesh,
+                    VertexConstructor {
+                        color: self.fill_color,
+                    },
+                ),
+            );
+
+            if let Err(err) = fill_result {
+                // the tessellator gives up on some self-intersecting inputs, keep what it generated
+                log::warn!("failed to tessellate polyline fill: {err}");
+            }
 
             let mesh = epaint::Mesh {
                 vertices: lyon_mesh.vertices,
-- 
2.43.0


From 841d2c974c311712212d456bb241571566db3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 28/32] fix: draw zero length arcs in the UI without NaN
 coordinates

---
 cavalier_contours_ui/src/plotting/plines.rs                | 3 ++-
 cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours_ui/src/plotting/plines.rs b/cavalier_contours_ui/src/plotting/plines.rs
index e3eec67..d952752 100644
--- a/cavalier_contours_ui/src/plotting/plines.rs
+++ b/cavalier_contours_ui/src/plotting/plines.rs
@@ -197,7 +197,8 @@ where
                         initial = false;
                     }
 
-                    if v1.bulge_is_zero() {
+                    // zero length arcs have no radius or center, draw as line
+                    if v1.bulge_is_zero() || v1.pos().fuzzy_eq(v2.pos()) {
                         builder.line_to(p2);
                     } else {
                         let (r, c) = seg_arc_radius_and_center(v1, v2);
diff --git a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
index f8d8820..9690bf0 100644
--- a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
+++ b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
@@ -92,7 +92,8 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             let p2 = lyon_point(seg.v2.pos(), transform);
 
             builder.move_to(p1);
-            if seg.v1.bulge_is_zero() {
+            // zero length arcs have no radius or center, draw as line
+            if seg.v1.bulge_is_zero() || seg.v1.pos().fuzzy_eq(seg.v2.pos()) {
                 builder.line_to(p2);
             } else {
                 let (r, c) = seg_arc_radius_and_center(seg.v1, seg.v2);
-- 
2.43.0


From 8c58beeab258481ceec2c24ebb52a20f2751e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 29/32] fix: draw arcs in the UI accurately when their radius
 is large on screen

---
 cavalier_contours_ui/src/plotting/mod.rs      | 52 ++++++++++++++++++-
 cavalier_contours_ui/src/plotting/plines.rs   | 25 ++-------
 .../src/plotting/raw_pline_offset_segs.rs     | 29 ++---------
 3 files changed, 59 insertions(+), 47 deletions(-)

diff --git a/cavalier_contours_ui/src/plotting/mod.rs b/cavalier_contours_ui/src/plotting/mod.rs
index 6d3a6a3..f14b281 100644
--- a/cavalier_contours_ui/src/plotting/mod.rs
+++ b/cavalier_contours_ui/src/plotting/mod.rs
@@ -4,11 +4,15 @@ mod raw_pline_offset_segs;
 pub use plines::*;
 pub use raw_pline_offset_segs::*;
 
-use cavalier_contours::{core::math::Vector2, static_aabb2d_index::AABB};
+use cavalier_contours::{
+    core::math::{Vector2, angle, angle_from_bulge, point_on_circle},
+    polyline::{PlineVertex, seg_arc_radius_and_center},
+    static_aabb2d_index::AABB,
+};
 use egui::epaint;
 use egui_plot::PlotTransform;
 use lyon::{
-    path::{Path, PathEvent},
+    path::{Path, PathEvent, builder::SvgPathBuilder},
     tessellation::{FillVertexConstructor, StrokeVertexConstructor},
 };
 
@@ -30,6 +34,50 @@ fn lyon_point(v: Vector2, transform: &PlotTransform) -> lyon::math::Point {
     )
 }
 
+/// Add arc segment from `v1` to `v2` to the path (current position of the path must be at `v1`).
+///
+/// The arc is added as cubic beziers computed in plot coordinates with 64 bit floats. Arcs of the
+/// lyon path builder are not accurate enough when the radius is large in screen space (they do not
+/// end at `v2` and they are approximated using quadratic beziers).
+fn add_arc(
+    builder: &mut impl SvgPathBuilder,
+    v1: PlineVertex,
+    v2: PlineVertex,
+    transform: &PlotTransform,
+) {
+    // max sweep angle per cubic bezier, max error is approximately `radius * 1e-7`
+    const MAX_SWEEP: f64 = std::f64::consts::FRAC_PI_8;
+
+    let (radius, center) = seg_arc_radius_and_center(v1, v2);
+    let start_angle = angle(center, v1.pos());
+    let sweep_angle = angle_from_bulge(v1.bulge);
+
+    let count = (sweep_angle.abs() / MAX_SWEEP).ceil().max(1.0);
+    let step = sweep_angle / count;
+    let tangent_length = radius * 4.0 / 3.0 * (step / 4.0).tan();
+
+    let mut from = v1.pos();
+    let mut from_angle = start_angle;
+    for i in 1..=count as usize {
+        let to_angle = start_angle + i as f64 * step;
+        let to = if i == count as usize {
+            v2.pos()
+        } else {
+            point_on_circle(radius, center, to_angle)
+        };
+
+        let tangent = |a: f64| Vector2::new(-a.sin(), a.cos()).scale(tangent_length);
+        builder.cubic_bezier_to(
+            lyon_point(from + tangent(from_angle), transform),
+            lyon_point(to - tangent(to_angle), transform),
+            lyon_point(to, transform),
+        );
+
+        from = to;
+        from_angle = to_angle;
+    }
+}
+
 fn aabb_to_plotbounds(aabb: &AABB) -> egui_plot::PlotBounds {
     egui_plot::PlotBounds::from_min_max([aabb.min_x, aabb.min_y], [aabb.max_x, aabb.max_y])
 }
diff --git a/cavalier_contours_ui/src/plotting/plines.rs b/cavalier_contours_ui/src/plotting/plines.rs
index d952752..d2c67c2 100644
--- a/cavalier_contours_ui/src/plotting/plines.rs
+++ b/cavalier_contours_ui/src/plotting/plines.rs
@@ -1,8 +1,7 @@
 use std::sync::Arc;
 
 use cavalier_contours::{
-    core::math::angle_from_bulge,
-    polyline::{PlineSource, Polyline, seg_arc_radius_and_center},
+    polyline::{PlineSource, Polyline},
     shape_algorithms::Shape,
     static_aabb2d_index::AABB,
 };
@@ -19,8 +18,8 @@ use lyon::{
 use crate::plotting::plotbounds_to_aabb;
 
 use super::{
-    PLOT_VERTEX_RADIUS, VertexConstructor, aabb_to_plotbounds, cull_path, empty_aabb, lyon_point,
-    plot_bounds_valid,
+    PLOT_VERTEX_RADIUS, VertexConstructor, aabb_to_plotbounds, add_arc, cull_path, empty_aabb,
+    lyon_point, plot_bounds_valid,
 };
 
 /// Core trait for plotting polylines data, supports plotting multiple polylines.
@@ -174,9 +173,6 @@ where
             return;
         }
 
-        // scale using x value (assuming uniform scaling)
-        let scaling = transform.dpos_dvalue_x();
-
         let mut builder = Path::svg_builder();
 
         if self.stroke_color != epaint::Color32::TRANSPARENT
@@ -201,20 +197,7 @@ where
                     if v1.bulge_is_zero() || v1.pos().fuzzy_eq(v2.pos()) {
                         builder.line_to(p2);
                     } else {
-                        let (r, c) = seg_arc_radius_and_center(v1, v2);
-
-                        let radius = (scaling * r) as f32;
-                        let sweep_angle = angle_from_bulge(v1.bulge);
-
-                        builder.arc(
-                            lyon_point(c, transform),
-                            lyon::path::math::vector(radius, radius),
-                            lyon::geom::Angle {
-                                // negate the sweep angle because y axis is flipped
-                                radians: -sweep_angle as f32,
-                            },
-                            lyon::geom::Angle { radians: 0.0 },
-                        );
+                        add_arc(&mut builder, v1, v2, transform);
                     }
                 }
             });
diff --git a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
index 9690bf0..3e5f08a 100644
--- a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
+++ b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
@@ -1,11 +1,6 @@
 use std::sync::Arc;
 
-use cavalier_contours::{
-    core::math::angle_from_bulge,
-    polyline::{
-        internal::pline_offset::RawPlineOffsetSeg, seg_arc_radius_and_center, seg_bounding_box,
-    },
-};
+use cavalier_contours::polyline::{internal::pline_offset::RawPlineOffsetSeg, seg_bounding_box};
 use egui::epaint;
 use egui_plot::PlotItem;
 use lyon::{
@@ -13,7 +8,9 @@ use lyon::{
     tessellation::{BuffersBuilder, StrokeOptions, StrokeTessellator, VertexBuffers},
 };
 
-use super::{VertexConstructor, aabb_to_plotbounds, cull_path, lyon_point, plot_bounds_valid};
+use super::{
+    VertexConstructor, aabb_to_plotbounds, add_arc, cull_path, lyon_point, plot_bounds_valid,
+};
 
 pub struct RawPlineOffsetSegsPlotItem<'a> {
     pub segs: &'a [RawPlineOffsetSeg<f64>],
@@ -69,9 +66,6 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             return;
         }
 
-        // scale using x value (assuming uniform scaling)
-        let scaling = transform.dpos_dvalue_x();
-
         let mut lyon_mesh: VertexBuffers<_, u32> = VertexBuffers::new();
         let mut stroke_tess = StrokeTessellator::new();
         let line_width = 1.0;
@@ -96,20 +90,7 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             if seg.v1.bulge_is_zero() || seg.v1.pos().fuzzy_eq(seg.v2.pos()) {
                 builder.line_to(p2);
             } else {
-                let (r, c) = seg_arc_radius_and_center(seg.v1, seg.v2);
-
-                let radius = (scaling * r) as f32;
-                let sweep_angle = angle_from_bulge(seg.v1.bulge);
-
-                builder.arc(
-                    lyon_point(c, transform),
-                    lyon::path::math::vector(radius, radius),
-                    lyon::geom::Angle {
-                        // negate the sweep angle because y axis is flipped
-                        radians: -sweep_angle as f32,
-                    },
-                    lyon::geom::Angle { radians: 0.0 },
-                );
+                add_arc(&mut builder, seg.v1, seg.v2, transform);
             }
 
             let path = builder.build();
-- 
2.43.0


From 9f4e2ea6be93e31322bef898a068c5f0b4978daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 30/32] fix: the polyline offset scene draws no offset when the
 maximum count is 0

---
 cavalier_contours_ui/src/scenes/pline_offset_scene.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
index 79775de..f7e38af 100644
--- a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
@@ -323,6 +323,10 @@ fn build_offset(
     max_offset_count: &usize,
 ) -> SceneState {
     let mut all_offset_plines = Vec::new();
+    if *max_offset_count == 0 {
+        return SceneState::Offset { all_offset_plines };
+    }
+
     let offset_opt = PlineOffsetOptions {
         handle_self_intersects: *handle_self_intersects,
         ..Default::default()
-- 
2.43.0


From 3f32734936dcd069d332aa9dcea66321f0bfab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:55 +0000
Subject: [PATCH 31/32] fix: short and nearly vertical line extended to a
 circle missed its own line

---
 .../src/core/math/line_circle_intersect.rs    | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_circle_intersect.rs b/cavalier_contours/src/core/math/line_circle_intersect.rs
index c10f808..68b4310 100644
--- a/cavalier_contours/src/core/math/line_circle_intersect.rs
+++ b/cavalier_contours/src/core/math/line_circle_intersect.rs
@@ -97,19 +97,22 @@ where
     let p0_shifted = p0 - circle_center;
     let p1_shifted = p1 - circle_center;
 
-    // note: using Real number's defined epsilon for this check since it's just avoiding division by
-    // too small a number, using the epsilon passed into this function causes unneeded loss of
-    // precision (this branch is not directly determining the intersect result case returned)
-    let (a, b, c) = if dx.fuzzy_eq_zero() {
-        // vertical line, using average of point x values for fuzziness
-        let x_pos = (p1_shifted.x + p0_shifted.x) / T::two();
-        // x = x_pos
-        // x - x_pos = 0
-
-        // A = 1
-        // B = 0
-        // C = -x_pos
-        (T::one(), T::zero(), -x_pos)
+    // note: solving for the component with the larger difference to avoid division by a small number,
+    // a short line is never treated as exactly vertical (which is only accurate near the line and not
+    // where the line is extended to the circle)
+    let (a, b, c) = if dx.abs() < dy.abs() {
+        // (x - x1) = m(y - y1)
+        // x - x1 = my - my1
+        // x - my + my1 - x1 = 0
+
+        // A = 1.0
+        // B = -m
+        // C = -x1 + m*y1
+
+        // m = (x1 - x0) / (y1 - y0)
+
+        let m = dx / dy;
+        (T::one(), -m, m * p1_shifted.y - p1_shifted.x)
     } else {
         // (y - y1) = m(x - x1)
         // y - y1 = mx - mx1
-- 
2.43.0


From bb18aa2a5d5140c5c199ecb4e43eab5ca1bf94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:21 +0000
Subject: [PATCH 32/32] fix: drop the variable the previous fix left unused

---
 cavalier_contours/src/core/math/line_circle_intersect.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/line_circle_intersect.rs b/cavalier_contours/src/core/math/line_circle_intersect.rs
index 68b4310..173fdfe 100644
--- a/cavalier_contours/src/core/math/line_circle_intersect.rs
+++ b/cavalier_contours/src/core/math/line_circle_intersect.rs
@@ -94,7 +94,6 @@ where
         return NoIntersect;
     }
 
-    let p0_shifted = p0 - circle_center;
     let p1_shifted = p1 - circle_center;
 
     // note: solving for the component with the larger difference to avoid division by a small number,
-- 
2.43.0


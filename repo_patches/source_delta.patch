From e12f4c4d98b1d9aa081e43638ee80cb7180d2ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 01/10] fix: a point on a diagonal of a convex hull is inside
 it

contains_point_exclusive() splits the hull along diagonals from its first
vertex and then demanded that the point is strictly left of the diagonal,
so that e.g. the centre of a square was reported as outside.
---
 src/linestring_2d/convex_hull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..23ab4aa 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1365,7 +1365,8 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     //println!("{:?}", slice );
     // Check the final slice (triangle)
     if retain_index_0 {
-        if !is_point_left(input[input_offset], slice[0], p) {
+        // this edge is a diagonal of the hull, a point on it can still be inside
+        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
             //println!("return false 3.1 for slice: 0+{:?}", slice);
             return false;
         }
-- 
2.43.0


From 449dee4aebd39be02cea3aa898979846eb07f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 02/10] fix: a straight line string does not intersect itself

intersection_point3() mixed up the axes of the start point, and only told
overlapping edges from edges that continue straight ahead when both were
vertical (and then only for one of the two directions).
---
 src/linestring_2d.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..61bdf39 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -328,29 +328,27 @@ impl<T: GenericVector2> Line2<T> {
         middle: T,
         end: T,
     ) -> Result<Option<Intersection<T>>, LinestringError> {
-        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.x());
+        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.y());
         let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
         let start_is_vertical = ulps_eq!(middle_sub_start.x(), T::Scalar::ZERO);
         let end_is_vertical = ulps_eq!(middle_sub_end.x(), T::Scalar::ZERO);
 
+        if middle_sub_start.dot(middle_sub_end) <= T::Scalar::ZERO {
+            // the lines leave the middle point in different directions, they can't overlap
+            return Ok(None);
+        }
+
         if start_is_vertical && end_is_vertical {
             // both lines are vertical
-            return if middle_sub_start.y().is_sign_negative()
-                && !middle_sub_end.y().is_sign_negative()
+            // pick the shortest vector for overlap point
+            return if (middle_sub_start.x() * middle_sub_start.x()
+                + middle_sub_start.y() * middle_sub_start.y())
+                < (middle_sub_end.x() * middle_sub_end.x()
+                    + middle_sub_end.y() * middle_sub_end.y())
             {
-                // opposite direction
-                Ok(None)
+                Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
             } else {
-                // pick the shortest vector for overlap point
-                if (middle_sub_start.x() * middle_sub_start.x()
-                    + middle_sub_start.y() * middle_sub_start.y())
-                    < (middle_sub_end.x() * middle_sub_end.x()
-                        + middle_sub_end.y() * middle_sub_end.y())
-                {
-                    Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
-                } else {
-                    Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-                }
+                Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
             };
         } else if start_is_vertical || end_is_vertical {
             return Ok(None);
-- 
2.43.0


From f1890c26e729a28dc52e8412b114c6fb170ee2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 03/10] fix: simplifying an indexed line string of fewer than
 two points

---
 src/linestring_2d/simplify.rs | 2 +-
 src/linestring_3d/simplify.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 8414624..b8386dc 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -133,7 +133,7 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index a3a6a93..687602a 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -237,7 +237,7 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
-- 
2.43.0


From 97847a9d391899c494f71f133074a1453ac2fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:01 +0000
Subject: [PATCH 04/10] fix: hull wrapping ends when it is back at the first
 point, also if that point is repeated

---
 src/linestring_2d/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 23ab4aa..1353869 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -332,7 +332,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         }
 
         point_on_hull = end_point;
-        if end_point == starting_point {
+        if vertices[end_point] == vertices[starting_point] {
             // complete the loop, `hull` now represents a closed loop of points.
             // Each edge can be iterated over by `hull.iter().window(2)`
             hull.push(vertices[end_point]);
@@ -480,7 +480,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         }
 
         point_on_hull = end_point;
-        if end_point == starting_index {
+        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
             break;
         }
     }
@@ -1059,7 +1059,7 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         println!();
          */
         point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
+        if vertices[end_point.index] == vertices[starting_index.index] {
             break;
         }
     }
-- 
2.43.0


From 09761ab1c35ad4ee80c2f9dbf0f45abb60195f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 05/10] fix: indexed Graham scan with a repeated first point
 loses a corner

---
 src/linestring_2d/convex_hull.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 1353869..9bd32e5 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -804,10 +804,10 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        if p == start_point {
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
-- 
2.43.0


From 96d6018ee52c0a3262faa0ae4c522f53f25f1a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:24 +0000
Subject: [PATCH 06/10] fix: sweep-line reports a line starting or ending in
 the interior of another line

A line whose start point lies on the interior of an already active line was
never compared with that line (MinMax::update drops candidates at pivot_x), so
the documented end-point-to-interior intersection was missed.
---
 src/linestring_2d/intersection.rs | 37 ++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..766d2cf 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -389,6 +389,16 @@ fn sweepline_intersection<T: GenericVector2>(
     Some(((sweepline.y() - d) / slope, slope))
 }
 
+/// Returns true if the active line `other` passes through the point `sweepline`
+fn is_at_sweepline<T: GenericVector2>(sweepline: T, other: &linestring_2d::Line2<T>) -> bool {
+    if approx::ulps_eq!(&other.start.y(), &other.end.y()) {
+        // active horizontal lines start to the left of the sweep-line position
+        return sweepline.x() < other.end.x();
+    }
+    sweepline_intersection(sweepline, other)
+        .map_or(false, |(x, _)| approx::ulps_eq!(&x, &sweepline.x()))
+}
+
 /// Contains the data the sweep-line intersection algorithm needs to operate.
 /// Some of these containers are stored inside an Option. This makes it possible
 /// to take() them and make the borrow-checker happy.
@@ -571,7 +581,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
+            if let Some((key, mut event)) = {
                 #[cfg(feature = "map_first_last")]
                 {
                     site_events.pop_first()
@@ -594,6 +604,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                     }
                 }
             } {
+                self.add_touched_lines(&key, &mut event, &active_lines);
                 self.handle_event(
                     &key,
                     &event,
@@ -615,6 +626,30 @@ impl<T: GenericVector2> IntersectionData<T> {
         Ok(result.into_iter().map(|x| (x.0.pos, x.1)))
     }
 
+    /// A line that starts (or ends) in the interior of an active line intersects that line.
+    /// Add such active lines to the 'intersection' list of the event.
+    fn add_touched_lines(
+        &self,
+        key: &SiteEventKey<T>,
+        event: &mut SiteEvent,
+        active_lines: &AHashSet<usize>,
+    ) {
+        let mut touched: Vec<usize> = active_lines
+            .iter()
+            .copied()
+            .filter(|i| {
+                !event.drop.iter().flatten().any(|d| d == i)
+                    && is_at_sweepline(key.pos, &self.lines[*i])
+            })
+            .collect();
+        if !touched.is_empty() {
+            touched.extend(event.intersection.take().into_iter().flatten());
+            touched.sort_unstable();
+            touched.dedup();
+            event.intersection = Some(touched);
+        }
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn handle_event(
         &mut self,
-- 
2.43.0


From 2232a5e627ce4b926d894250aa40b682968cdddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:24 +0000
Subject: [PATCH 07/10] fix: indexed sweep-line reports a line starting or
 ending in the interior of another line

Same defect as in intersection.rs: a line starting on the interior of an
already active line was never compared with that line.
---
 src/linestring_2d/indexed_intersection.rs | 38 ++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..1e71be2 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -399,6 +399,17 @@ fn sweepline_intersection<T: GenericVector2>(
     Some(((sweepline.y() - d) / slope, slope))
 }
 
+/// Returns true if the active line `other` passes through the point `sweepline`
+fn is_at_sweepline<T: GenericVector2>(vertices: &[T], sweepline: T, other: (usize, usize)) -> bool {
+    let (start, end) = (vertices[other.0], vertices[other.1]);
+    if ulps_eq!(&start.y(), &end.y()) {
+        // active horizontal lines start to the left of the sweep-line position
+        return sweepline.x() < start.x() || sweepline.x() < end.x();
+    }
+    sweepline_intersection(vertices, sweepline, other)
+        .map_or(false, |(x, _)| ulps_eq!(&x, &sweepline.x()))
+}
+
 /// Contains the data the sweep-line intersection algorithm needs to operate.
 /// Some of these containers are stored inside an Option. This makes it possible
 /// to take() them and make the borrow-checker happy.
@@ -645,7 +656,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
+            if let Some((key, mut event)) = {
                 #[cfg(feature = "map_first_last")]
                 {
                     site_events.pop_first()
@@ -668,6 +679,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                     }
                 }
             } {
+                self.add_touched_lines(&key, &mut event, &active_lines);
                 self.handle_event(
                     &key,
                     &event,
@@ -693,6 +705,30 @@ impl<T: GenericVector2> IntersectionTester<T> {
         ))
     }
 
+    /// A line that starts (or ends) in the interior of an active line intersects that line.
+    /// Add such active lines to the 'intersection' list of the event.
+    fn add_touched_lines(
+        &self,
+        key: &SiteEventKey<T>,
+        event: &mut SiteEvent,
+        active_lines: &AHashSet<usize>,
+    ) {
+        let mut touched: SmallVec<[usize; 1]> = active_lines
+            .iter()
+            .copied()
+            .filter(|i| {
+                !event.drop.iter().flatten().any(|d| d == i)
+                    && is_at_sweepline(&self.vertices, key.pos, self.lines[*i])
+            })
+            .collect();
+        if !touched.is_empty() {
+            touched.extend(event.intersection.take().into_iter().flatten());
+            touched.sort_unstable();
+            touched.dedup();
+            event.intersection = Some(touched);
+        }
+    }
+
     #[inline(always)]
     #[allow(clippy::too_many_arguments)]
     fn handle_event(
-- 
2.43.0


From b223b025d7af38f7d67ce748a0ab9e00582978f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:32 +0000
Subject: [PATCH 08/10] fix: sweep-line finders gave different results from run
 to run

The active lines were walked in the random order of a hash set; which of several lines at the
same place came first then decided the reported position and the vertex numbers.
---
 src/linestring_2d/indexed_intersection.rs | 15 ++++++++++-----
 src/linestring_2d/intersection.rs         | 13 ++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 1e71be2..16702ec 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -45,9 +45,14 @@ limitations under the License.
 mod tests;
 
 use crate::{linestring_2d::Line2, LinestringError};
-use ahash::AHashSet;
 use smallvec::{smallvec, SmallVec};
-use std::{cmp::Ordering, collections::BTreeMap, convert::identity, fmt, fmt::Debug};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, BTreeSet},
+    convert::identity,
+    fmt,
+    fmt::Debug,
+};
 use vector_traits::{approx::*, num_traits::float::FloatCore, GenericScalar, GenericVector2};
 
 #[derive(Clone, Copy)]
@@ -646,7 +651,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 "compute() could not take ownership of 'site_events'".to_string(),
             )
         })?;
-        let mut active_lines = AHashSet::<usize>::with_capacity(site_events.len());
+        let mut active_lines = BTreeSet::<usize>::new();
         // A list of intersection points and the line segments involved in each intersection
         let mut result: BTreeMap<SiteEventKey<T>, Vec<usize>> = BTreeMap::default();
         // The 'best' lines surrounding the event point but not directly connected to the point.
@@ -711,7 +716,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         &self,
         key: &SiteEventKey<T>,
         event: &mut SiteEvent,
-        active_lines: &AHashSet<usize>,
+        active_lines: &BTreeSet<usize>,
     ) {
         let mut touched: SmallVec<[usize; 1]> = active_lines
             .iter()
@@ -735,7 +740,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
         &mut self,
         key: &SiteEventKey<T>,
         event: &SiteEvent,
-        active_lines: &mut AHashSet<usize>,
+        active_lines: &mut BTreeSet<usize>,
         neighbour_priority: &mut MinMax<T>,
         connected_priority: &mut MinMaxSlope<T>,
         site_events: &mut BTreeMap<SiteEventKey<T>, SiteEvent>,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 766d2cf..7894ad5 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -42,8 +42,11 @@ limitations under the License.
 */
 
 use crate::{linestring_2d, LinestringError};
-use ahash::AHashSet;
-use std::{cmp::Ordering, collections::BTreeMap, convert::identity};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, BTreeSet},
+    convert::identity,
+};
 use vector_traits::{
     approx,
     approx::{AbsDiffEq, UlpsEq},
@@ -568,7 +571,7 @@ impl<T: GenericVector2> IntersectionData<T> {
     ) -> Result<impl ExactSizeIterator<Item = (T, Vec<usize>)>, LinestringError> {
         // make the borrow checker happy by breaking the link between self and all the
         // containers and their iterators.
-        let mut active_lines = AHashSet::<usize>::default();
+        let mut active_lines = BTreeSet::<usize>::new();
         let mut site_events = self.site_events.take().ok_or_else(|| {
             LinestringError::InternalError("compute() could not take 'site_events'".to_string())
         })?;
@@ -632,7 +635,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         &self,
         key: &SiteEventKey<T>,
         event: &mut SiteEvent,
-        active_lines: &AHashSet<usize>,
+        active_lines: &BTreeSet<usize>,
     ) {
         let mut touched: Vec<usize> = active_lines
             .iter()
@@ -655,7 +658,7 @@ impl<T: GenericVector2> IntersectionData<T> {
         &mut self,
         key: &SiteEventKey<T>,
         event: &SiteEvent,
-        active_lines: &mut AHashSet<usize>,
+        active_lines: &mut BTreeSet<usize>,
         neighbour_priority: &mut MinMax<T>,
         connected_priority: &mut MinMaxSlope<T>,
         site_events: &mut BTreeMap<SiteEventKey<T>, SiteEvent>,
-- 
2.43.0


From 98a12740d9d47f9460b1b89f0873cb5f69669d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:37 +0000
Subject: [PATCH 09/10] fix: combining two hulls tests every point of the other
 hull

The scan over the other hull stopped at the first point left of the
candidate after one had been accepted. The other hull can be scanned from
any of its corners, so a corner further on could be missed and the result
of convex_hull_par depended on how rayon grouped the chunks.
---
 src/linestring_2d/convex_hull.rs | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 9bd32e5..51edd79 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -869,8 +869,7 @@ struct VertexIndex {
 /// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
 /// though a list of `j` candidates to try to find a better end-point.
 /// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// find a better `end_point`.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
@@ -954,9 +953,7 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         );*/
 
         if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
+            // every point of the other hull must be tested, it can be scanned from any of its corners
             for (jj, j) in indices_b.iter().enumerate() {
                 let j = *j;
 
@@ -976,7 +973,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = false;
-                    found_a_legit_b_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -989,23 +985,14 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = false;
-                        found_a_legit_b_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
                 }
             }
         } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
+            // every point of the other hull must be tested, it can be scanned from any of its corners
             for (jj, j) in indices_a.iter().enumerate() {
                 let j = *j;
 
@@ -1025,7 +1012,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = true;
-                    found_a_legit_a_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -1038,17 +1024,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = true;
-                        found_a_legit_a_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
                 }
             }
         }
-- 
2.43.0


From e4b5b4de64d0f76ac853ec5a1eef2450bf2cee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:06 +0000
Subject: [PATCH 10/10] fix: three points in a line are reduced to their ends
 by the indexed Graham scan

A chunk of three points in a line was handed on as a hull with a corner
inside a side, and convex_hull_par then kept that point as a corner.
---
 src/linestring_2d/convex_hull.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 51edd79..a936630 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -764,17 +764,18 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
         return Ok(indices.to_vec());
     }
     if indices.len() == 3 {
-        return if is_point_left(
+        match point_orientation(
             vertices[indices[0]],
             vertices[indices[1]],
             vertices[indices[2]],
         ) {
             // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
+            Orientation::Left => return Ok(indices.to_vec()),
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
+            Orientation::Right => return Ok(vec![indices[0], indices[2], indices[1]]),
+            // the point between the other two is not a corner, the scan below drops it
+            Orientation::Collinear => {}
+        }
     }
     let (start_index, start_point) = if let Some(start_index) = start_index {
         (start_index, vertices[start_index])
-- 
2.43.0


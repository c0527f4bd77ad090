From 49837d4c4e2d1d98ab49fa577fe1eaa510eb605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 01/16] fix: the convex hull of a single point is that point,
 not empty

---
 src/linestring_2d/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..a912779 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -270,7 +270,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if vertices[0] == vertices[vertices.len() - 1] {
+    if vertices.len() > 1 && vertices[0] == vertices[vertices.len() - 1] {
         // disregard the duplicated loop point if it exists
         vertices = &vertices[1..];
     }
@@ -528,7 +528,7 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
@@ -623,7 +623,7 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
-- 
2.43.0


From 33530007b38ad57a23af518553ffec74696f1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 02/16] fix: close the convex hull of a triangle and drop the
 middle of three collinear points

---
 src/linestring_2d/convex_hull.rs | 84 ++++++++++++++++----------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index a912779..83cda77 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -278,11 +278,13 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         return Ok(vertices.to_vec());
     }
     if vertices.len() == 3 {
-        return if is_point_left(vertices[0], vertices[1], vertices[2]) {
-            Ok(vertices.to_vec())
-        } else {
-            Ok(vec![vertices[0], vertices[2], vertices[1]])
-        };
+        let (a, b, c) = (vertices[0], vertices[1], vertices[2]);
+        if is_point_left(a, b, c) {
+            return Ok(vec![a, b, c, a]);
+        } else if is_point_left(a, c, b) {
+            return Ok(vec![a, c, b, a]);
+        }
+        // the points are collinear, let the general case sort them out
     }
 
     let starting_point = find_lowest_x(vertices)?.0;
@@ -420,17 +422,15 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         return Ok(indices.to_vec());
     }
     if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
+        let (a, b, c) = (indices[0], indices[1], indices[2]);
+        if is_point_left(vertices[a], vertices[b], vertices[c]) {
             // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
+            return Ok(vec![a, b, c]);
+        } else if is_point_left(vertices[a], vertices[c], vertices[b]) {
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
+            return Ok(vec![a, c, b]);
+        }
+        // the points are collinear, let the general case sort them out
     }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
@@ -536,11 +536,13 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
         return Ok(input_points.to_vec());
     }
     if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
+        let (a, b, c) = (input_points[0], input_points[1], input_points[2]);
+        if is_point_left(a, b, c) {
+            return Ok(vec![a, b, c, a]);
+        } else if is_point_left(a, c, b) {
+            return Ok(vec![a, c, b, a]);
+        }
+        // the points are collinear, let the general case sort them out
     }
 
     let mut input_points = input_points.to_vec();
@@ -631,11 +633,13 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
         return Ok(input_points.to_vec());
     }
     if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
+        let (a, b, c) = (input_points[0], input_points[1], input_points[2]);
+        if is_point_left(a, b, c) {
+            return Ok(vec![a, b, c, a]);
+        } else if is_point_left(a, c, b) {
+            return Ok(vec![a, c, b, a]);
+        }
+        // the points are collinear, let the general case sort them out
     }
 
     let (_, starting_point) = find_lowest_x(input_points)?;
@@ -764,17 +768,15 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
         return Ok(indices.to_vec());
     }
     if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
+        let (a, b, c) = (indices[0], indices[1], indices[2]);
+        if is_point_left(vertices[a], vertices[b], vertices[c]) {
             // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
+            return Ok(vec![a, b, c]);
+        } else if is_point_left(vertices[a], vertices[c], vertices[b]) {
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
+            return Ok(vec![a, c, b]);
+        }
+        // the points are collinear, let the general case sort them out
     }
     let (start_index, start_point) = if let Some(start_index) = start_index {
         (start_index, vertices[start_index])
@@ -1137,17 +1139,15 @@ pub fn convex_hull_par<T: GenericVector2>(
         return Ok(indices.to_vec());
     }
     if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
+        let (a, b, c) = (indices[0], indices[1], indices[2]);
+        if is_point_left(vertices[a], vertices[b], vertices[c]) {
             // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
+            return Ok(vec![a, b, c, a]);
+        } else if is_point_left(vertices[a], vertices[c], vertices[b]) {
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
+            return Ok(vec![a, c, b, a]);
+        }
+        // the points are collinear, let the general case sort them out
     }
 
     // Create chunks of indices
-- 
2.43.0


From 3a78fa7f8b08a127447d7b4eb28b461bfa79560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 03/16] fix: indexed_graham_scan lost points when the lowest
 point was duplicated

---
 src/linestring_2d/convex_hull.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 83cda77..e2115e9 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -806,10 +806,11 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        if p == start_point {
+            // skip the start point, and any duplicates of it
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
-- 
2.43.0


From 8ac022d57866c4d3409bab9fb72ea8ef4a36f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 04/16] fix: convex_hull_par could miss hull points or never
 terminate when combining partial hulls

---
 src/linestring_2d/convex_hull.rs | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index e2115e9..35c8cdd 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -872,8 +872,8 @@ struct VertexIndex {
 /// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
 /// though a list of `j` candidates to try to find a better end-point.
 /// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// find a better `end_point`. All of `ìndices_b` must be tested, a bad candidate does not imply
+/// that the following ones are bad too.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
@@ -957,9 +957,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         );*/
 
         if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
             for (jj, j) in indices_b.iter().enumerate() {
                 let j = *j;
 
@@ -979,7 +976,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = false;
-                    found_a_legit_b_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -992,23 +988,13 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = false;
-                        found_a_legit_b_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
                 }
             }
         } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
             for (jj, j) in indices_a.iter().enumerate() {
                 let j = *j;
 
@@ -1028,7 +1014,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = true;
-                    found_a_legit_a_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -1041,17 +1026,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = true;
-                        found_a_legit_a_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
                 }
             }
         }
@@ -1062,7 +1040,8 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         println!();
          */
         point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
+        // compare by position, the starting point may be duplicated in the other hull
+        if vertices[end_point.index] == vertices[starting_index.index] {
             break;
         }
     }
-- 
2.43.0


From d15d95077f1099fa5dfcc9dd18d5eeaed25454f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 05/16] fix: gift wrapping lost hull points when points were
 duplicated

---
 src/linestring_2d/convex_hull.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 35c8cdd..dca9f4b 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -325,7 +325,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_point {
+                } else if j != starting_point && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     //println!("coll marking {:?}:{} as visited", input_points[j], j);
                     let _ = visited.set(j, true);
@@ -334,7 +334,8 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         }
 
         point_on_hull = end_point;
-        if end_point == starting_point {
+        // compare by position, the starting point may be duplicated
+        if vertices[end_point] == vertices[starting_point] {
             // complete the loop, `hull` now represents a closed loop of points.
             // Each edge can be iterated over by `hull.iter().window(2)`
             hull.push(vertices[end_point]);
@@ -472,7 +473,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_index {
+                } else if j != starting_index && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     let _ = visited.set(j, true);
                 }
@@ -480,7 +481,8 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         }
 
         point_on_hull = end_point;
-        if end_point == starting_index {
+        // compare by position, the starting point may be duplicated
+        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
             break;
         }
     }
-- 
2.43.0


From b94335d0412a6b183b682b10ce0738412d71125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 06/16] fix: contains_point_exclusive rejected interior points
 on the hull's slicing diagonals

---
 src/linestring_2d/convex_hull.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index dca9f4b..8f58612 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1309,6 +1309,9 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         (&input[..], 0)
     };
     let mut retain_index_0 = false;
+    // true as long as the edge from the end of 'slice' back to index 0 is an edge of the hull,
+    // and not one of the slicing edges inside it
+    let mut closing_edge_on_hull = true;
 
     while (slice.len() > 3) || (retain_index_0 && slice.len() > 2) {
         let mid = if retain_index_0 {
@@ -1336,6 +1339,7 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         } else {
             // Point is to the right of the first half
             slice = &slice[..mid + 1];
+            closing_edge_on_hull = false;
             /*if retain_index_0 {
                 println!("new (right) slice: 0+{:?}", slice);
             } else {
@@ -1345,9 +1349,9 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     }
 
     //println!("{:?}", slice );
-    // Check the final slice (triangle)
+    // Check the final slice (triangle), a point on one of the slicing edges is still inside the hull
     if retain_index_0 {
-        if !is_point_left(input[input_offset], slice[0], p) {
+        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
             //println!("return false 3.1 for slice: 0+{:?}", slice);
             return false;
         }
@@ -1357,7 +1361,7 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
                 return false;
             }
         }
-        if !is_point_left(slice[slice.len() - 1], input[input_offset], p) {
+        if closing_edge_on_hull && !is_point_left(slice[slice.len() - 1], input[input_offset], p) {
             //println!("return false 3.3 slice:0+{:?}", slice);
             return false;
         }
@@ -1369,7 +1373,7 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
                 return false;
             }
         }
-        if !is_point_left(slice[slice.len() - 1], slice[0], p) {
+        if closing_edge_on_hull && !is_point_left(slice[slice.len() - 1], slice[0], p) {
             //println!("return false 4 slice:{:?}", slice);
             return false;
         }
-- 
2.43.0


From 44c7b03b4a3f1741079745dc8521c3cab18a541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 07/16] fix: contains_point_inclusive of a single repeated
 point claimed to contain every point

---
 src/linestring_2d/convex_hull.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 8f58612..6af714d 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1415,6 +1415,8 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
                 // TODO: but technically we should check if p lies on the line
                 return false;
             }
+            // a hull of a single, repeated, point
+            return p == input[0];
         }
         _ => (),
     };
-- 
2.43.0


From adc43d4d872544a348923876a558c7898e8382a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 08/16] fix: indexed_simplify_rdp panicked on, or duplicated,
 short index lists

---
 src/linestring_2d/simplify.rs | 2 +-
 src/linestring_3d/simplify.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 8414624..b8386dc 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -133,7 +133,7 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index a3a6a93..687602a 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -237,7 +237,7 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
-- 
2.43.0


From 7793e34baa1945b7bce18ce91b5d70ef633dcbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 09/16] fix: is_self_intersecting misjudged consecutive
 segments and segments overlapping from a shared end point

---
 src/linestring_2d.rs | 51 ++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..9affadd 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -328,47 +328,20 @@ impl<T: GenericVector2> Line2<T> {
         middle: T,
         end: T,
     ) -> Result<Option<Intersection<T>>, LinestringError> {
-        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.x());
-        let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
-        let start_is_vertical = ulps_eq!(middle_sub_start.x(), T::Scalar::ZERO);
-        let end_is_vertical = ulps_eq!(middle_sub_end.x(), T::Scalar::ZERO);
-
-        if start_is_vertical && end_is_vertical {
-            // both lines are vertical
-            return if middle_sub_start.y().is_sign_negative()
-                && !middle_sub_end.y().is_sign_negative()
-            {
-                // opposite direction
-                Ok(None)
-            } else {
-                // pick the shortest vector for overlap point
-                if (middle_sub_start.x() * middle_sub_start.x()
-                    + middle_sub_start.y() * middle_sub_start.y())
-                    < (middle_sub_end.x() * middle_sub_end.x()
-                        + middle_sub_end.y() * middle_sub_end.y())
-                {
-                    Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
-                } else {
-                    Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-                }
-            };
-        } else if start_is_vertical || end_is_vertical {
+        let middle_to_start = start - middle;
+        let middle_to_end = end - middle;
+
+        if !ulps_eq!(middle_to_start.perp_dot(middle_to_end), T::Scalar::ZERO) {
+            // the lines are not parallel, they only share the middle point
             return Ok(None);
         }
-
-        // both lines should now be non-vertical, we can compare their slope
-        let start_slope = middle_sub_start.x() / middle_sub_start.y();
-        let end_slope = middle_sub_end.x() / middle_sub_end.y();
-
-        if !ulps_eq!(&start_slope, &end_slope) {
+        if middle_to_start.dot(middle_to_end) <= T::Scalar::ZERO {
+            // opposite direction, or one of the lines is a point
             return Ok(None);
         }
 
-        // Slope identical, pick the shortest vector for overlap point
-        if (middle_sub_start.x() * middle_sub_start.x()
-            + middle_sub_start.y() * middle_sub_start.y())
-            < (middle_sub_end.x() * middle_sub_end.x() + middle_sub_end.y() * middle_sub_end.y())
-        {
+        // Same direction, pick the shortest vector for overlap point
+        if middle_to_start.magnitude_sq() < middle_to_end.magnitude_sq() {
             Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
         } else {
             Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
@@ -732,7 +705,11 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                             return Ok(true);
                         }
                     } else if let Some(point) = l0.1.intersection_point(l1.1) {
-                        let point = point.single();
+                        let point = match point {
+                            Intersection::Intersection(point) => point,
+                            // an overlap is always more than a shared end point
+                            Intersection::Overlap(_) => return Ok(true),
+                        };
                         if (point.is_ulps_eq(
                             l0.1.start,
                             T::Scalar::default_epsilon(),
-- 
2.43.0


From 35a7afd62fc83bdbf753b420e2fbb70ae008ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 10/16] fix: the sweep-line intersection missed crossings when
 several lines met beside the event point

---
 src/linestring_2d/indexed_intersection.rs | 17 +++++++----------
 src/linestring_2d/intersection.rs         | 17 +++++++----------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..6df048f 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -369,13 +369,14 @@ impl SiteEvent {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is how fast the x coordinate of the line decreases with y.
+/// i.e. the lowest value on the left side, and the highest value on the right side, leans
+/// the most towards the pivot point.
 fn sweepline_intersection<T: GenericVector2>(
     vertices: &[T],
     sweepline: T,
     other: (usize, usize),
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
     let other_start = vertices[other.0];
     let other_end = vertices[other.1];
 
@@ -389,14 +390,10 @@ fn sweepline_intersection<T: GenericVector2>(
         return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
     }
 
-    if ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
-    }
-
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    Some((
+        x1 + (sweepline.y() - y1) * (x2 - x1) / (y2 - y1),
+        (x1 - x2) / (y2 - y1),
+    ))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..b86223a 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -363,12 +363,13 @@ impl SiteEvent {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is how fast the x coordinate of the line decreases with y.
+/// i.e. the lowest value on the left side, and the highest value on the right side, leans
+/// the most towards the pivot point.
 fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
     other: &linestring_2d::Line2<T>,
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
     let y1 = other.start.y();
     let y2 = other.end.y();
     let x1 = other.start.x();
@@ -379,14 +380,10 @@ fn sweepline_intersection<T: GenericVector2>(
         return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
     }
 
-    if approx::ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
-    }
-
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    Some((
+        x1 + (sweepline.y() - y1) * (x2 - x1) / (y2 - y1),
+        (x1 - x2) / (y2 - y1),
+    ))
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
-- 
2.43.0


From f30cdf74bd679cfdd885f190741e352bbc28b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 11/16] fix: the sweep-line intersection missed end points
 lying on the interior of another segment

---
 src/linestring_2d/indexed_intersection.rs | 96 +++++++++++++----------
 src/linestring_2d/intersection.rs         | 92 ++++++++++++----------
 2 files changed, 106 insertions(+), 82 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 6df048f..1840754 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -385,9 +385,8 @@ fn sweepline_intersection<T: GenericVector2>(
     let x1 = other_start.x();
     let x2 = other_end.x();
     if ulps_eq!(&y1, &y2) {
-        // horizontal line: return to the point right of sweepline.x, if any
-        // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
+        // horizontal line: it contains every event point as long as it is active
+        return Some((sweepline.x(), T::Scalar::ZERO));
     }
 
     Some((
@@ -707,7 +706,51 @@ impl<T: GenericVector2> IntersectionTester<T> {
 
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+
+        // remove 'drop' lines from the active lines
+        for line_index in event.drop.iter().flatten() {
+            let _ = active_lines.remove(line_index);
+        }
+
+        //
+        // calculate the sweep-line status for this point (aka the 'leftright' struct)
+        //
+        neighbour_priority.clear();
+        // The lines that runs through this point, without starting or ending here.
+        let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
+
+        'active_lines: for line_index in active_lines.iter() {
+            for i in event.intersection.iter().flatten() {
+                // lines intersecting at this point can never be left/right candidates
+                if i == line_index {
+                    continue 'active_lines;
+                }
+            }
+
+            //print!("(sweepline_intersection id={:?}", line_index);
+            if let Some((intersection_x, intersection_slope)) = sweepline_intersection(
+                &self.vertices,
+                self.sweepline_pos,
+                *self.lines.get(*line_index).unwrap(),
+            ) {
+                //println!(" @{}^{})", intersection_x, intersection_slope);
+                if removed_active_lines + added_active_lines > 0
+                    && ulps_eq!(&intersection_x, &self.sweepline_pos.x())
+                {
+                    // the end point of some other line lies on the interior of this line
+                    intersections.push(*line_index);
+                    continue;
+                }
+                neighbour_priority.update(
+                    self.sweepline_pos.x(),
+                    intersection_x,
+                    intersection_slope,
+                    *line_index,
+                );
+            }
+        }
+
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -735,7 +778,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         println!("self.sweepline_pos:{:?}", self.sweepline_pos);
                         panic!();
                     }),
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -758,48 +801,17 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos_index.unwrap(),
-                    event.intersection.iter().flatten(),
-                );
-            }
-        }
-
-        // remove 'drop' lines from the active lines
-        for line_index in event.drop.iter().flatten() {
-            let _ = active_lines.remove(line_index);
-        }
-
-        //
-        // calculate the sweep-line status for this point (aka the 'leftright' struct)
-        //
-        neighbour_priority.clear();
-
-        'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
-                // lines intersecting at this point can never be left/right candidates
-                if i == line_index {
-                    continue 'active_lines;
-                }
-            }
-
-            //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) = sweepline_intersection(
-                &self.vertices,
-                self.sweepline_pos,
-                *self.lines.get(*line_index).unwrap(),
-            ) {
-                //println!(" @{}^{})", intersection_x, intersection_slope);
-                neighbour_priority.update(
-                    self.sweepline_pos.x(),
-                    intersection_x,
-                    intersection_slope,
-                    *line_index,
+                    intersections.iter(),
                 );
             }
         }
 
         // add the newly found lines
         for l in event.add.iter().flatten() {
-            let _ = active_lines.insert(*l);
+            // a line that also ends here is nothing but a point
+            if !event.drop.iter().flatten().any(|d| d == l) {
+                let _ = active_lines.insert(*l);
+            }
         }
 
         if intersections_found + added_active_lines == 0 {
@@ -818,7 +830,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
 
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index b86223a..32144eb 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -375,9 +375,8 @@ fn sweepline_intersection<T: GenericVector2>(
     let x1 = other.start.x();
     let x2 = other.end.x();
     if approx::ulps_eq!(&y1, &y2) {
-        // horizontal line: return to the point right of sweepline.x, if any
-        // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
+        // horizontal line: it contains every event point as long as it is active
+        return Some((sweepline.x(), T::Scalar::ZERO));
     }
 
     Some((
@@ -627,7 +626,49 @@ impl<T: GenericVector2> IntersectionData<T> {
 
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+
+        // remove 'drop' lines from the active lines
+        for line_index in event.drop.iter().flatten() {
+            let _ = active_lines.remove(line_index);
+        }
+
+        //
+        // calculate the sweep-line status for this point (aka the 'leftright' struct)
+        //
+        neighbour_priority.clear();
+        // The lines that runs through this point, without starting or ending here.
+        let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
+
+        'active_lines: for line_index in active_lines.iter() {
+            for i in event.intersection.iter().flatten() {
+                // lines intersecting at this point can never be left/right candidates
+                if i == line_index {
+                    continue 'active_lines;
+                }
+            }
+
+            //print!("(sweepline_intersection id={:?}", line_index);
+            if let Some((intersection_x, intersection_slope)) =
+                sweepline_intersection(self.sweepline_pos, self.lines.get(*line_index).unwrap())
+            {
+                //println!(" @{}^{})", intersection_x, intersection_slope);
+                if removed_active_lines + added_active_lines > 0
+                    && approx::ulps_eq!(&intersection_x, &self.sweepline_pos.x())
+                {
+                    // the end point of some other line lies on the interior of this line
+                    intersections.push(*line_index);
+                    continue;
+                }
+                neighbour_priority.update(
+                    self.sweepline_pos.x(),
+                    intersection_x,
+                    intersection_slope,
+                    *line_index,
+                );
+            }
+        }
+
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -652,7 +693,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -675,46 +716,17 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
-                );
-            }
-        }
-
-        // remove 'drop' lines from the active lines
-        for line_index in event.drop.iter().flatten() {
-            let _ = active_lines.remove(line_index);
-        }
-
-        //
-        // calculate the sweep-line status for this point (aka the 'leftright' struct)
-        //
-        neighbour_priority.clear();
-
-        'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
-                // lines intersecting at this point can never be left/right candidates
-                if i == line_index {
-                    continue 'active_lines;
-                }
-            }
-
-            //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) =
-                sweepline_intersection(self.sweepline_pos, self.lines.get(*line_index).unwrap())
-            {
-                //println!(" @{}^{})", intersection_x, intersection_slope);
-                neighbour_priority.update(
-                    self.sweepline_pos.x(),
-                    intersection_x,
-                    intersection_slope,
-                    *line_index,
+                    intersections.iter(),
                 );
             }
         }
 
         // add the newly found lines
         for l in event.add.iter().flatten() {
-            let _ = active_lines.insert(*l);
+            // a line that also ends here is nothing but a point
+            if !event.drop.iter().flatten().any(|d| d == l) {
+                let _ = active_lines.insert(*l);
+            }
         }
 
         if intersections_found + added_active_lines == 0 {
@@ -733,7 +745,7 @@ impl<T: GenericVector2> IntersectionData<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(*l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(*l, &self.lines);
             }
 
-- 
2.43.0


From 9c6c8f24cfc8a3e8335f713e1e8e8eb869ab3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 12/16] fix: 3d point to segment distance ignored the segment
 ends

distance_to_line_squared(_safe) measured the distance to the infinite line, unlike
the 2d version, so simplify_rdp dropped points arbitrarily far from the segment that
replaces them, e.g. (0,0,0),(10,0,0),(1,0,0) with a tolerance of 1.
---
 src/linestring_3d.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index d4d2028..df35c65 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -625,11 +625,19 @@ fn cross_abs_squared<T: GenericVector3>(a: T, b: T) -> T::Scalar {
 /// This function returns the distance²
 pub fn distance_to_line_squared<T: GenericVector3>(l0: T, l1: T, p: T) -> T::Scalar {
     let l0_sub_l1 = l0 - l1;
+    let l0_sub_l1_sq_mag = l0_sub_l1.magnitude_sq();
     let l0_sub_p = l0 - p;
-    cross_abs_squared(l0_sub_p, l0_sub_l1)
-        / (l0_sub_l1.x() * l0_sub_l1.x()
-            + l0_sub_l1.y() * l0_sub_l1.y()
-            + l0_sub_l1.z() * l0_sub_l1.z())
+
+    // dot product normalized by the magnitude squared of l0_sub_l1
+    let dot = l0_sub_p.dot(l0_sub_l1) / l0_sub_l1_sq_mag;
+
+    if dot < T::Scalar::ZERO {
+        l0_sub_p.magnitude_sq()
+    } else if dot > T::Scalar::ONE {
+        (l1 - p).magnitude_sq()
+    } else {
+        cross_abs_squared(l0_sub_p, l0_sub_l1) / l0_sub_l1_sq_mag
+    }
 }
 
 /// Same as `distance_to_line_squared<T>` but it can be called when a-b might be 0.
@@ -644,12 +652,7 @@ pub fn distance_to_line_squared_safe<T: GenericVector3>(l0: T, l1: T, p: T) -> T
         // give the point-to-point answer if the segment is a point
         l0.distance_sq(p)
     } else {
-        let l0_sub_l1 = l0 - l1;
-        let l0_sub_p = l0 - p;
-        cross_abs_squared(l0_sub_p, l0_sub_l1)
-            / (l0_sub_l1.x() * l0_sub_l1.x()
-                + l0_sub_l1.y() * l0_sub_l1.y()
-                + l0_sub_l1.z() * l0_sub_l1.z())
+        distance_to_line_squared(l0, l1, p)
     }
 }
 
-- 
2.43.0


From 7fd44e2647afb3261cbc4e33195a3efb87cfcbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 13/16] fix: a parabolic arc without length no longer loops
 forever

---
 src/linestring_2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 9affadd..64d2123 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -451,7 +451,7 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -565,7 +565,7 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 5835987be80736477ce15270ca92175e20e07ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:05 +0000
Subject: [PATCH 14/16] fix: number segments added to the sweep in several
 calls consecutively

---
 src/linestring_2d/indexed_intersection.rs | 4 +++-
 src/linestring_2d/intersection.rs         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 1840754..85520d9 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -501,7 +501,9 @@ impl<T: GenericVector2> IntersectionTester<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, aline) in input_iter.into_iter().enumerate() {
+        // edges may already have been added by an earlier call
+        let first_index = self.lines.len();
+        for (index, aline) in (first_index..).zip(input_iter) {
             let mut start_index = aline.0;
             let mut start = self.vertices[start_index];
             let mut end_index = aline.1;
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 32144eb..8a501ee 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -451,7 +451,9 @@ impl<T: GenericVector2> IntersectionData<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, mut aline) in input_iter.enumerate() {
+        // lines may already have been added by an earlier call
+        let first_index = self.lines.len();
+        for (index, mut aline) in (first_index..).zip(input_iter) {
             if !(aline.start.x().is_finite()
                 && aline.start.y().is_finite()
                 && aline.end.x().is_finite()
-- 
2.43.0


From c75257ebdff9c9487612f74868f6c58716746dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:05 +0000
Subject: [PATCH 15/16] fix: hulls of selected vertices reject NaN and infinite
 coordinates as documented

---
 src/linestring_2d/convex_hull.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 6af714d..7430ac3 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -69,6 +69,24 @@ impl Orientation {
     }
 }
 
+/// Returns an error if any component of the selected vertices is NaN or infinite
+fn check_finite<T: GenericVector2>(
+    vertices: &[T],
+    indices: &[usize],
+) -> Result<(), LinestringError> {
+    use vector_traits::num_traits::Float;
+    if indices
+        .iter()
+        .all(|&i| vertices[i].x().is_finite() && vertices[i].y().is_finite())
+    {
+        Ok(())
+    } else {
+        Err(LinestringError::InvalidData(
+            "Some of the points are infinite".to_string(),
+        ))
+    }
+}
+
 /// finds the point with lowest x, if x is equal -> find the point with lowest y value
 fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), LinestringError> {
     if vertices.is_empty() {
@@ -412,6 +430,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
     vertices: &[T],
     mut indices: &[usize],
 ) -> Result<Vec<usize>, LinestringError> {
+    check_finite(vertices, indices)?;
     if indices.len() <= 1 {
         return Ok(indices.to_vec());
     }
@@ -757,6 +776,7 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     mut indices: &[usize],
     start_index: Option<usize>,
 ) -> Result<Vec<usize>, LinestringError> {
+    check_finite(vertices, indices)?;
     //println!("indexed_graham_scan: input {:?}", indices);
 
     if indices.len() <= 1 {
@@ -1110,6 +1130,7 @@ pub fn convex_hull_par<T: GenericVector2>(
     mut indices: &[usize],
     per_thread_chunk_size: usize,
 ) -> Result<Vec<usize>, LinestringError> {
+    check_finite(vertices, indices)?;
     if indices.len() <= 1 {
         return Ok(indices.to_vec());
     }
-- 
2.43.0


From 0d44b3f80d5dad326af9560361a311570eb8a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:23 +0000
Subject: [PATCH 16/16] fix: a ray does not hit an edge that lies on its line
 behind the origin

---
 src/linestring_2d.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 64d2123..9f9a417 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -819,12 +819,14 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         if ulps_eq!(r_cross_s, T::Scalar::zero()) {
             let q_minus_p = p0.sub(origin);
             let q_minus_p_cross_r = q_minus_p.perp_dot(ray_dir);
-            ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()).then(|| {
-                let r_dot_r = ray_dir.dot(ray_dir);
-                let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
-                let t1: T::Scalar = t0 + s.dot(ray_dir) / r_dot_r;
-                t0.min(t1)
-            })
+            if !ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()) {
+                return None;
+            }
+            let r_dot_r = ray_dir.dot(ray_dir);
+            let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
+            let t1: T::Scalar = t0 + s.dot(ray_dir) / r_dot_r;
+            // the part of the edge behind the origin is not hit
+            (t0.max(t1) >= T::Scalar::ZERO).then(|| t0.min(t1).max(T::Scalar::ZERO))
         } else {
             let q_minus_p = p0.sub(origin);
             let t = q_minus_p.perp_dot(s) / r_cross_s;
-- 
2.43.0


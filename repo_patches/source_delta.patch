From 1ce8da9801e5bd91899bf4c4f05f2b0378f043ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 01/28] fix: build against i_shape 1.10 (it has no int::dedup):
 remove repeated contour points locally

---
 iOverlay/src/core/extract.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index b5a76b0..e819a2a 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -11,7 +11,6 @@ use i_float::triangle::Triangle;
 use i_shape::int::path::{IntPath, PointPathExtension};
 use i_shape::int::shape::{IntContour, IntShapes};
 use i_shape::int::simple::Simplify;
-use i_shape::int::dedup::DedupContour;
 use crate::core::overlay::ContourDirection;
 use crate::geom::v_segment::VSegment;
 
@@ -327,6 +326,24 @@ impl StartPathData {
     }
 }
 
+trait DedupContour {
+    /// Removes repeated neighbour points (the contour is closed, so the last and the first points are neighbours too).
+    /// Returns `true` if any point was removed.
+    fn dedup_contour(&mut self) -> bool;
+}
+
+impl DedupContour for IntPath {
+    #[inline]
+    fn dedup_contour(&mut self) -> bool {
+        let count = self.len();
+        self.dedup();
+        while self.len() > 1 && self.first() == self.last() {
+            self.pop();
+        }
+        self.len() != count
+    }
+}
+
 pub(crate) trait Validate {
     fn validate(&mut self, min_area: usize, simplify: bool) -> (bool, bool);
 }
-- 
2.43.0


From e11fa7ef34a8094b0e9915737938bcb259ebb342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 02/28] fix: keep the closing corner of a contour whose last
 point repeats the first

---
 iOverlay/src/segm/build.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iOverlay/src/segm/build.rs b/iOverlay/src/segm/build.rs
index 5dbd007..ff5d65b 100644
--- a/iOverlay/src/segm/build.rs
+++ b/iOverlay/src/segm/build.rs
@@ -50,6 +50,11 @@ fn private_append_iter<I: Iterator<Item=IntPoint>, C: WindingCount>(segments: &m
     let is_p1 = Triangle::is_line_point(q0, q1, p1);
 
     match (is_q0, is_p1) {
+        (true, true) if p1 == q0 && Triangle::is_not_line_point(p0, q0, q1) => {
+            // the contour is closed explicitly, its last point repeats the first one
+            segments.push(Segment::with_ab(p0, q0, direct, invert));
+            segments.push(Segment::with_ab(q0, q1, direct, invert));
+        }
         (false, false) => {
             // no one is collinear, most common case
             segments.push(Segment::with_ab(p0, p1, direct, invert));
-- 
2.43.0


From 816cf1848b1dbc98363179db8f301422228aebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 03/28] fix: tree and frag solvers panicked when all input
 segments cancel each other out

---
 iOverlay/src/split/solver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iOverlay/src/split/solver.rs b/iOverlay/src/split/solver.rs
index 42f87d5..526e359 100644
--- a/iOverlay/src/split/solver.rs
+++ b/iOverlay/src/split/solver.rs
@@ -37,6 +37,9 @@ impl SplitSolver {
 
     #[inline]
     pub(crate) fn split<C: WindingCount>(&self, segments: Vec<Segment<C>>) -> Vec<Segment<C>> {
+        // opposite segments may cancel each other out completely
+        if segments.is_empty() { return segments; }
+
         let is_list = self.solver.is_list_split(&segments);
         let snap_radius = self.snap_radius();
         if is_list {
-- 
2.43.0


From 3d5649d454012677db6987ad37d20a71573de1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 04/28] fix: frag solver missed splits of collinear overlapping
 segments which start in different columns

---
 iOverlay/src/split/solver_fragment.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4ec8b09..9f19d9f 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -203,23 +203,22 @@ impl SplitSolver {
                 let mask = CrossSolver::collinear(&fi.x_segment, &fj.x_segment);
                 if mask == 0 { return false; }
 
-                if !(fi.rect.contains_with_radius(fi.x_segment.a, r) || fj.rect.contains_with_radius(fi.x_segment.a, r)) {
-                    return false;
-                }
+                // an end inside the other segment is marked by the fragments it belongs to
+                let is_near = |p| fi.rect.contains_with_radius(p, r) || fj.rect.contains_with_radius(p, r);
 
-                if mask.is_target_a() {
+                if mask.is_target_a() && is_near(fi.x_segment.a) {
                     marks.push(LineMark { index: fj.index, point: fi.x_segment.a });
                 }
 
-                if mask.is_target_b() {
+                if mask.is_target_b() && is_near(fi.x_segment.b) {
                     marks.push(LineMark { index: fj.index, point: fi.x_segment.b });
                 }
 
-                if mask.is_other_a() {
+                if mask.is_other_a() && is_near(fj.x_segment.a) {
                     marks.push(LineMark { index: fi.index, point: fj.x_segment.a });
                 }
 
-                if mask.is_other_b() {
+                if mask.is_other_b() && is_near(fj.x_segment.b) {
                     marks.push(LineMark { index: fi.index, point: fj.x_segment.b });
                 }
             }
-- 
2.43.0


From c5386273b2eccadd4ac7fe055aefc4ae130d8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 05/28] fix: grid layout spun up to 2^30 iterations to round up
 a long segment's border crossing

---
 iOverlay/src/split/grid_layout.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/split/grid_layout.rs b/iOverlay/src/split/grid_layout.rs
index 345f175..c177500 100644
--- a/iOverlay/src/split/grid_layout.rs
+++ b/iOverlay/src/split/grid_layout.rs
@@ -101,19 +101,12 @@ impl FragmentBuffer {
         let width = (s.b.x - s.a.x) as u64;
         let height = (s.b.y - s.a.y).unsigned_abs() as u64;
 
-        let log = (width * height).ilog2();
-        let p = 63 - log;
-        let k = (height << p) / width;
-
         let mut w = (self.layout.pos(i0 + 1) - s.a.x) as u64;
         let dw = 1 << self.layout.power;
 
         for i in i0..i1 {
-            let h_min = (w * k) >> p;
-            let mut h_max = h_min;
-            while h_max * width < height * w {
-                h_max += 1;
-            }
+            let h_min = height * w / width;
+            let h_max = (height * w).div_ceil(width);
 
             let max_x = x0 + (w as i32);
 
-- 
2.43.0


From f4b7fc7336ea2f18b8e0ef62cec327300aa3d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 06/28] fix: holes were bound to a wrong shape when the end of
 one edge lies inside another edge

---
 iOverlay/src/geom/v_segment.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/geom/v_segment.rs b/iOverlay/src/geom/v_segment.rs
index ca3f49d..270a70e 100644
--- a/iOverlay/src/geom/v_segment.rs
+++ b/iOverlay/src/geom/v_segment.rs
@@ -15,9 +15,12 @@ impl VSegment {
     #[inline(always)]
     fn is_under_segment_order(&self, other: &VSegment) -> Ordering {
         match self.a.cmp(&other.a) {
-            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b),
+            // the end of one segment can lie on the other one, in this case the other end decides
+            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b)
+                .then_with(|| Triangle::clock_order_point(self.a, other.b, self.b)),
             Ordering::Equal => Triangle::clock_order_point(self.a, other.b, self.b),
-            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a),
+            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a)
+                .then_with(|| Triangle::clock_order_point(other.a, other.b, self.b)),
         }
     }
 
-- 
2.43.0


From 929d2f7ec7d1703621d0375414b17cce4099949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 07/28] fix: frag solver missed ends touching a vertical
 segment on a column border from the left

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 9f19d9f..90ae5c3 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -33,7 +33,8 @@ impl SplitSolver {
 
             if !buffer.on_border.is_empty() {
                 for (&index, segments) in buffer.on_border.iter_mut() {
-                    if let Some(fragments) = buffer.groups.get(index) {
+                    // fragments ending on the border belong to the column left of it
+                    if let Some(fragments) = buffer.groups.get(index - 1) {
                         let border_x = buffer.layout.pos(index);
                         Self::on_border_split(border_x, fragments, segments, &mut marks);
                     }
-- 
2.43.0


From 92be5cda90d088e6f238e7e66e1ae25d4b830f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 08/28] fix: dropping a contour by area could lose another
 contour with the same leftmost point

---
 iOverlay/src/core/extract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index e819a2a..1bb58ea 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -83,7 +83,7 @@ impl OverlayGraph {
             let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
-                link_index += 1;
+                // link_index itself can still be not visited
                 continue;
             }
 
-- 
2.43.0


From d2c55146c10b06a86e7a34415bc60ffb18f0748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 09/28] fix: a hole touching itself in its leftmost point was
 bound to a wrong shape

---
 iOverlay/src/bind/solver.rs  | 25 ++++++++++++-------------
 iOverlay/src/core/extract.rs |  3 ++-
 iOverlay/src/mesh/boolean.rs |  3 ++-
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/iOverlay/src/bind/solver.rs b/iOverlay/src/bind/solver.rs
index 022166e..f625799 100644
--- a/iOverlay/src/bind/solver.rs
+++ b/iOverlay/src/bind/solver.rs
@@ -204,22 +204,21 @@ pub(crate) trait LeftBottomSegment {
 
 impl LeftBottomSegment for IntContour {
     fn left_bottom_segment(&self) -> VSegment {
-        let mut index = 0;
-        let mut a = *self.first().unwrap();
-        for (i, &p) in self.iter().enumerate().skip(1) {
-            if p < a {
-                a = p;
-                index = i;
-            }
-        }
+        let a = self.iter().copied().min().unwrap();
         let n = self.len();
-        let b0 = self[(index + 1) % n];
-        let b1 = self[(index + n - 1) % n];
 
-        let s0 = VSegment { a, b: b0 };
-        let s1 = VSegment { a, b: b1 };
+        // a contour can touch itself in its most left point
+        let mut lowest: Option<VSegment> = None;
+        for (i, _) in self.iter().enumerate().filter(|it| *it.1 == a) {
+            for b in [self[(i + 1) % n], self[(i + n - 1) % n]] {
+                let s = VSegment { a, b };
+                if lowest.map_or(true, |it| s.is_under_segment(&it)) {
+                    lowest = Some(s);
+                }
+            }
+        }
 
-        if s0.is_under_segment(&s1) { s0 } else { s1 }
+        lowest.unwrap()
     }
 }
 
diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index 1bb58ea..24e93df 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -99,7 +99,8 @@ impl OverlayGraph {
                         b: contour[contour.len() - 1],
                     }
                 };
-                if is_modified {
+                // a clockwise walk can pass its most left point several times
+                if clockwise || is_modified {
                     let most_left = contour.left_bottom_segment();
                     if most_left != v_segment {
                         v_segment = most_left;
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index edbacd9..d950cef 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -161,7 +161,8 @@ impl OverlayGraph {
                         b: path[path.len() - 1],
                     }
                 };
-                if is_modified {
+                // a clockwise walk can pass its most left point several times
+                if clockwise || is_modified {
                     let most_left = path.left_bottom_segment();
                     if most_left != v_segment {
                         v_segment = most_left;
-- 
2.43.0


From 1e253f13a4873f86e5a67236fecf6591ac097c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 10/28] fix: stroke and outline could lose a contour with the
 same leftmost point as a dropped one

---
 iOverlay/src/mesh/boolean.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index d950cef..d228728 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -138,14 +138,13 @@ impl OverlayGraph {
 
             let mut path = self.get_fill_path(&start_data, direction, &mut bold, visited);
             if !bold {
-                link_index += 1;
+                // link_index itself can still be not visited
                 continue;
             }
 
             let (is_valid, is_modified) = path.validate(min_area, true);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
-- 
2.43.0


From 06b794e637a4072a2a7c0baeed7c458fdaaf39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 11/28] fix: shape vectors could lose a contour with the same
 leftmost point as another one

---
 iOverlay/src/vector/extract_vectors.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 8e1bb76..10ade9a 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -65,8 +65,7 @@ impl OverlayGraph {
                 let path = self.get_vector_path(start_data, false, visited);
                 shapes.push(vec![path]);
             };
-
-            link_index += 1;
+            // link_index itself can still be not visited
         }
 
         shapes.join(&self.solver, holes, true);
-- 
2.43.0


From 07dc635ac41d608570203a0edf9df77e18681f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 12/28] fix: holes of shape vectors were bound to a wrong
 shape, or the search for it panicked

---
 iOverlay/src/bind/segment.rs           | 24 +++---------
 iOverlay/src/vector/extract_vectors.rs | 52 +++++---------------------
 2 files changed, 16 insertions(+), 60 deletions(-)

diff --git a/iOverlay/src/bind/segment.rs b/iOverlay/src/bind/segment.rs
index fdeeec2..77bd80b 100644
--- a/iOverlay/src/bind/segment.rs
+++ b/iOverlay/src/bind/segment.rs
@@ -1,5 +1,5 @@
 use crate::geom::v_segment::VSegment;
-use crate::vector::edge::{VectorEdge, VectorPath};
+use crate::vector::edge::VectorPath;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_shape::int::path::IntPath;
@@ -119,25 +119,13 @@ impl IdSegments for VectorPath {
         x_max: i32,
         clockwise: bool,
     ) {
-        fn inner<I: Iterator<Item = VectorEdge>>(
-            iter: I,
-            buffer: &mut Vec<IdSegment>,
-            id_data: ContourIndex,
-            x_min: i32,
-            x_max: i32,
-        ) {
-            for vec in iter {
-                if vec.a.x < vec.b.x && x_min < vec.b.x && vec.a.x <= x_max {
-                    buffer.push(IdSegment::new(id_data, vec.a, vec.b));
-                }
+        for vec in self.iter() {
+            // bottom edges run from right to left in a clockwise contour
+            let (a, b) = if clockwise { (vec.b, vec.a) } else { (vec.a, vec.b) };
+            if a.x < b.x && x_min < b.x && a.x <= x_max {
+                buffer.push(IdSegment::new(id_data, a, b));
             }
         }
-
-        if clockwise {
-            inner(self.iter().copied(), buffer, id_data, x_min, x_max);
-        } else {
-            inner(self.iter().rev().copied(), buffer, id_data, x_min, x_max);
-        }
     }
 }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 10ade9a..648f876 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,16 +1,14 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::ShapeBinder;
+use crate::bind::solver::{LeftBottomSegment, ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
 use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
-use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::util::sort::SmartBinSort;
-use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
+use crate::vector::edge::{ToPath, VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
     pub fn extract_separate_vectors(&self) -> Vec<VectorEdge> {
@@ -154,23 +152,16 @@ impl JoinHoles for Vec<VectorShape> {
     }
 
     fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) {
-        let hole_segments: Vec<_> = holes
+        let mut hole_segments: Vec<_> = holes
             .iter()
             .enumerate()
             .map(|(id, path)| {
-                let v = path[1];
-                let v_segment = if v.a < v.b {
-                    VSegment { a: v.a, b: v.b }
-                } else {
-                    VSegment { a: v.b, b: v.a }
-                };
-                debug_assert_eq!(v_segment, most_left_bottom(path));
                 let id_data = ContourIndex::new_hole(id);
-                IdSegment::with_segment(id_data, v_segment)
+                IdSegment::with_segment(id_data, path.to_path().left_bottom_segment())
             })
             .collect();
 
-        debug_assert!(is_sorted(&hole_segments));
+        hole_segments.sort_by_a_then_by_angle(solver);
 
         let x_min = hole_segments[0].v_segment.a.x;
         let x_max = hole_segments[hole_segments.len() - 1].v_segment.a.x;
@@ -180,7 +171,11 @@ impl JoinHoles for Vec<VectorShape> {
             shape[0].append_id_segments(&mut segments, ContourIndex::new_shape(i), x_min, x_max, clockwise);
         }
 
-        segments.smart_bin_sort_by(solver, |a, b| a.v_segment.a.x.cmp(&b.v_segment.a.x));
+        for (i, hole) in holes.iter().enumerate() {
+            hole.append_id_segments(&mut segments, ContourIndex::new_hole(i), x_min, x_max, clockwise);
+        }
+
+        segments.sort_by_a_then_by_angle(solver);
 
         let solution = ShapeBinder::bind(self.len(), hole_segments, segments);
 
@@ -194,30 +189,3 @@ impl JoinHoles for Vec<VectorShape> {
         }
     }
 }
-
-#[inline]
-fn most_left_bottom(path: &VectorPath) -> VSegment {
-    let mut index = 0;
-    let mut a = path[0].a;
-    for (i, &e) in path.iter().enumerate().skip(1) {
-        if e.a < a {
-            a = e.a;
-            index = i;
-        }
-    }
-    let n = path.len();
-    let b0 = path[index].b;
-    let b1 = path[(index + n - 1) % n].a;
-
-    let s0 = VSegment { a, b: b0 };
-    let s1 = VSegment { a, b: b1 };
-
-    if s0.is_under_segment(&s1) { s0 } else { s1 }
-}
-
-#[inline]
-fn is_sorted(segments: &[IdSegment]) -> bool {
-    segments
-        .windows(2)
-        .all(|slice| slice[0].v_segment.a <= slice[1].v_segment.a)
-}
-- 
2.43.0


From 0b83f387b7344f886a9240732af1adbbf808797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 13/28] fix: decompose_contours missed the greatest repeated
 point and lost loops of points visited more than twice

---
 iOverlay/src/core/divide.rs | 110 ++++++------------------------------
 1 file changed, 18 insertions(+), 92 deletions(-)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index e744e18..f7c1e5e 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -1,32 +1,6 @@
+use std::collections::HashMap;
 use i_float::int::point::IntPoint;
-use i_shape::int::path::IntPath;
 use i_shape::int::shape::IntContour;
-use crate::geom::id_point::IdPoint;
-
-struct SubPath {
-    last: usize,
-    node: IntPoint,
-    path: IntPath,
-}
-
-impl SubPath {
-    fn start(point: IdPoint) -> Self {
-        Self {
-            last: point.id + 1,
-            node: point.point,
-            path: vec![point.point],
-        }
-    }
-
-    fn join(&mut self, point: IdPoint, source: &IntContour) {
-        self.path.extend_from_slice(&source[self.last..point.id]);
-        self.last = point.id;
-    }
-
-    fn shift(&mut self, point: IdPoint) {
-        self.last = point.id;
-    }
-}
 
 pub trait ContourDecomposition {
     fn decompose_contours(&self) -> Option<Vec<IntContour>>;
@@ -37,86 +11,38 @@ impl ContourDecomposition for IntContour {
         if self.len() < 3 {
             return None;
         }
-        let mut id_points: Vec<_> = self.iter()
-            .enumerate()
-            .map(|(i, &p)| IdPoint::new(i, p))
-            .collect();
 
-        id_points.sort_by(|p0, p1| p0.point.cmp(&p1.point).then_with(|| p0.id.cmp(&p1.id)));
-
-        let mut p0 = id_points.first().unwrap().point;
-        let mut anchors = Vec::new();
-        let mut n = 0;
-        for (i, idp) in id_points.iter().enumerate().skip(1) {
-            if p0 == idp.point {
-                n += 1;
-                continue;
-            }
+        let mut contours = Vec::new();
 
-            if n > 0 {
-                anchors.extend_from_slice(&id_points[i - n - 1..i]);
-                n = 0;
-            }
-
-            p0 = idp.point;
-        }
+        // points of the path which is not closed yet and their positions in it
+        let mut path = Vec::with_capacity(self.len());
+        let mut positions: HashMap<IntPoint, usize> = HashMap::with_capacity(self.len());
 
-        if anchors.is_empty() {
-            return None;
-        }
-
-        anchors.sort_by(|p0, p1| p0.id.cmp(&p1.id));
-
-
-        let mut contours = Vec::with_capacity((anchors.len() >> 1) + 1);
-
-        let mut queue = vec![];
-
-        let mut i = 0;
-        while i < anchors.len() {
-            let a = anchors[i];
-            let mut sub_path: SubPath = if let Some(sub_path) = queue.pop() {
-                sub_path
-            } else {
-                queue.push(SubPath::start(a));
-                i += 1;
-                continue;
-            };
-
-            if sub_path.node == a.point {
-                sub_path.join(a, self);
-                contours.push(sub_path.path);
-                if let Some(prev) = queue.last_mut() {
-                    prev.shift(a);
-                } else {
-                    queue.push(SubPath::start(a));
+        for &point in self.iter() {
+            if let Some(&position) = positions.get(&point) {
+                // the part since the last visit of the point is a closed contour
+                for p in &path[position + 1..] {
+                    positions.remove(p);
                 }
+                let mut contour = vec![point];
+                contour.extend(path.drain(position + 1..));
+                contours.push(contour);
             } else {
-                sub_path.join(a, self);
-                queue.push(sub_path);
-                queue.push(SubPath::start(a));
+                positions.insert(point, path.len());
+                path.push(point);
             }
-            i += 1;
         }
 
-        let mut sub_path: SubPath = queue.pop().unwrap();
-
-        if sub_path.last < self.len() {
-            sub_path.path.extend_from_slice(&self[sub_path.last..]);
-        }
-
-        let i0 = anchors.first().unwrap().id;
-        if i0 > 0 {
-            sub_path.path.extend_from_slice(&self[..i0]);
+        if contours.is_empty() {
+            return None;
         }
 
-        contours.push(sub_path.path);
+        contours.push(path);
 
         Some(contours)
     }
 }
 
-
 #[cfg(test)]
 mod tests {
     use i_float::int::point::IntPoint;
-- 
2.43.0


From 9ed429dd3962525a7c5bc6673ee9a0f2a00f30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 14/28] fix: slicing with a minimal area kept the small
 contours and dropped the large ones

---
 iOverlay/src/string/split.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index bf37303..f960e13 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -34,7 +34,7 @@ impl Split for IntPath {
             }
         }
 
-        if path.len() > 2 {
+        if path.len() > 2 && path.validate_area(min_area) {
             result.push(path);
         }
 
@@ -53,7 +53,7 @@ impl ValidateArea for IntPath {
             return true;
         }
         let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;
-        abs_area < min_area
+        abs_area >= min_area
     }
 }
 
-- 
2.43.0


From f14758c597672e14ff3518606c272ea2c3de05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 15/28] fix: tree and frag solvers did not split two crossing
 or overlapping lines when nothing else was given

---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 iOverlay/src/split/solver_tree.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 90ae5c3..383fbfd 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -22,7 +22,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
 
             buffer.init_fragment_buffer(segments.iter().map(|it| it.x_segment));
             for (i, segment) in segments.iter().enumerate() {
diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index bb26ebb..e347321 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -39,7 +39,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
             need_to_fix = false;
 
             let radius = snap_radius.radius();
-- 
2.43.0


From a942cc6da08e19c7197aadae99d8215a81e00463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 16/28] fix: frag solver dropped crossings when the growing
 snap radius overflowed 32 bits

---
 iOverlay/src/split/solver_fragment.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 383fbfd..da71e2b 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -1,3 +1,5 @@
+use i_float::int::point::IntPoint;
+use i_float::int::rect::IntRect;
 use crate::segm::segment::Segment;
 use crate::segm::winding_count::WindingCount;
 use crate::split::cross_solver::{CrossSolver, CrossType, EndMask};
@@ -197,7 +199,8 @@ impl SplitSolver {
             return false;
         };
 
-        let r = radius as i32;
+        // radius is squared
+        let r = (radius as f64).sqrt() as i64 + 1;
 
         match cross.cross_type {
             CrossType::Overlay => {
@@ -205,7 +208,7 @@ impl SplitSolver {
                 if mask == 0 { return false; }
 
                 // an end inside the other segment is marked by the fragments it belongs to
-                let is_near = |p| fi.rect.contains_with_radius(p, r) || fj.rect.contains_with_radius(p, r);
+                let is_near = |p| Self::is_near(&fi.rect, p, r) || Self::is_near(&fj.rect, p, r);
 
                 if mask.is_target_a() && is_near(fi.x_segment.a) {
                     marks.push(LineMark { index: fj.index, point: fi.x_segment.a });
@@ -224,7 +227,7 @@ impl SplitSolver {
                 }
             }
             _ => {
-                if !fi.rect.contains_with_radius(cross.point, r) || !fj.rect.contains_with_radius(cross.point, r) {
+                if !Self::is_near(&fi.rect, cross.point, r) || !Self::is_near(&fj.rect, cross.point, r) {
                     return false;
                 }
 
@@ -247,4 +250,10 @@ impl SplitSolver {
         cross.is_round
     }
 
+    #[inline(always)]
+    fn is_near(rect: &IntRect, p: IntPoint, r: i64) -> bool {
+        let x = p.x as i64;
+        let y = p.y as i64;
+        rect.min_x as i64 - r <= x && x <= rect.max_x as i64 + r && rect.min_y as i64 - r <= y && y <= rect.max_y as i64 + r
+    }
 }
\ No newline at end of file
-- 
2.43.0


From cf67458e9ae6a3f8f461f2ae5ab232dfb9222931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 17/28] fix: stroke bounds did not hold the points of a custom
 cap, which were drawn elsewhere or never ended

---
 iOverlay/src/mesh/stroke/builder_cap.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b4bfe67..e2c55d3 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -3,7 +3,6 @@ use std::marker::PhantomData;
 use i_float::adapter::FloatPointAdapter;
 use i_float::float::compatible::FloatPointCompatible;
 use i_float::float::number::FloatNumber;
-use i_float::float::rect::FloatRect;
 use i_float::float::vector::FloatPointMath;
 use crate::mesh::boolean::OffsetCountBoolean;
 use crate::mesh::stroke::section::Section;
@@ -110,14 +109,14 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
 
     #[inline]
     pub(super) fn additional_offset(&self) -> T {
+        // the points turn with the path around its end
+        let mut max_sqr_length = T::from_float(0.0);
         if let Some(points) = &self.points {
-            if let Some(rect) = FloatRect::with_iter(points.iter()) {
-                rect.width() + rect.height()
-            } else {
-                T::from_float(0.0)
+            for p in points.iter() {
+                max_sqr_length = max_sqr_length.max(FloatPointMath::sqr_length(p));
             }
-        } else {
-            T::from_float(0.0)
         }
+        // add extra 10% to avoid problems with floating point precision.
+        T::from_float(1.1) * max_sqr_length.sqrt()
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 2835e1cc6f5a0538e6810e3e5f2c5ee5b54f63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 18/28] fix: the inner side of a stroke's turn took away what
 short sections do not cover twice

---
 iOverlay/src/mesh/stroke/builder_join.rs | 61 +++++++++++++++++++-----
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_join.rs b/iOverlay/src/mesh/stroke/builder_join.rs
index baf87ee..fb8155f 100644
--- a/iOverlay/src/mesh/stroke/builder_join.rs
+++ b/iOverlay/src/mesh/stroke/builder_join.rs
@@ -24,6 +24,38 @@ pub(super) trait JoinBuilder<P: FloatPointCompatible<T>, T: FloatNumber> {
 pub(super) struct BevelJoinBuilder;
 
 impl BevelJoinBuilder {
+    #[inline]
+    fn is_left_turn<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+    ) -> bool {
+        FloatPointMath::cross_product(&s0.dir, &s1.dir) > T::from_float(0.0)
+    }
+
+    // The inner side of a turn goes through the corner itself. A direct segment would take
+    // away what sections shorter than the radius do not cover twice.
+    #[inline]
+    fn join_inner_top<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_segment(&s0.b_top, &s0.b, adapter, segments);
+        Self::add_segment(&s0.b, &s1.a_top, adapter, segments);
+    }
+
+    #[inline]
+    fn join_inner_bot<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_segment(&s1.a_bot, &s0.b, adapter, segments);
+        Self::add_segment(&s0.b, &s0.b_bot, adapter, segments);
+    }
+
     #[inline]
     fn join_top<T: FloatNumber, P: FloatPointCompatible<T>>(
         s0: &Section<P, T>,
@@ -69,13 +101,18 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoin
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::join_top(s0, s1, adapter, segments);
-        Self::join_bot(s0, s1, adapter, segments);
+        if Self::is_left_turn(s0, s1) {
+            Self::join_inner_top(s0, s1, adapter, segments);
+            Self::join_bot(s0, s1, adapter, segments);
+        } else {
+            Self::join_top(s0, s1, adapter, segments);
+            Self::join_inner_bot(s0, s1, adapter, segments);
+        }
     }
 
     #[inline]
     fn capacity(&self) -> usize {
-        2
+        3
     }
 
     #[inline]
@@ -124,8 +161,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
     ) {
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         if cross_product.abs() < T::from_float(0.0001) {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder.add_join(s0, s1, adapter, segments);
             return;
         }
 
@@ -137,7 +173,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
         if is_limited {
             let (pa, pb, ac, bc) = if turn {
-                BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_top(s0, s1, adapter, segments);
                 let (pa, pb, va, vb) = (s1.a_bot, s0.b_bot, s1.dir, s0.dir);
 
                 let ax = pa.x() - self.max_length * va.x();
@@ -150,7 +186,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
                 (pa, pb, ac, bc)
             } else {
-                BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_bot(s0, s1, adapter, segments);
                 let (pa, pb, va, vb) = (s0.b_top, s1.a_top, s0.dir, s1.dir);
 
                 let ax = pa.x() + self.max_length * va.x();
@@ -185,10 +221,10 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
             }
         } else {
             let (pa, pb, va, vb) = if turn {
-                BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_top(s0, s1, adapter, segments);
                 (s1.a_bot, s0.b_bot, s1.dir, s0.dir)
             } else {
-                BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_bot(s0, s1, adapter, segments);
                 (s0.b_top, s1.a_top, s0.dir, s1.dir)
             };
             match Miter::sharp(pa, pb, va, vb, adapter) {
@@ -244,8 +280,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
     ) {
         let dot_product = FloatPointMath::dot_product(&s0.dir, &s1.dir);
         if self.limit_dot_product < dot_product {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder.add_join(s0, s1, adapter, segments);
             return;
         }
 
@@ -256,11 +291,11 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
 
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let (start, end, dir) = if cross_product > T::from_float(0.0) {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner_top(s0, s1, adapter, segments);
             let ortho = P::from_xy(s1.dir.y(), -s1.dir.x());
             (s1.a_bot, s0.b_bot, ortho)
         } else {
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner_bot(s0, s1, adapter, segments);
             let ortho = P::from_xy(-s0.dir.y(), s0.dir.x());
             (s0.b_top, s1.a_top, ortho)
         };
-- 
2.43.0


From 46ac66c66ff9834684286cc434cd4c784e24adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 19/28] fix: round stroke joins at exact reversals were flat
 when rounding left the range of the cosine

---
 iOverlay/src/mesh/stroke/builder_join.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/builder_join.rs b/iOverlay/src/mesh/stroke/builder_join.rs
index fb8155f..570b2a8 100644
--- a/iOverlay/src/mesh/stroke/builder_join.rs
+++ b/iOverlay/src/mesh/stroke/builder_join.rs
@@ -284,7 +284,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        // rounding can leave the range of a cosine
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
-- 
2.43.0


From dae9e0215049102d6b46b14efb81d093b27bdb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 20/28] fix: stroke panicked on empty and one-point paths

---
 iOverlay/src/mesh/stroke/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder.rs b/iOverlay/src/mesh/stroke/builder.rs
index a4f2d15..f27a4b9 100644
--- a/iOverlay/src/mesh/stroke/builder.rs
+++ b/iOverlay/src/mesh/stroke/builder.rs
@@ -112,9 +112,9 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBui
     #[inline]
     fn capacity(&self, paths_count: usize, points_count: usize, is_closed_path: bool) -> usize {
         if is_closed_path {
-            self.join_builder.capacity() * points_count - 2
+            self.join_builder.capacity() * points_count
         } else {
-            self.join_builder.capacity() * (points_count - 1)
+            self.join_builder.capacity() * points_count.saturating_sub(1)
                 + paths_count
                     * (self.end_cap_builder.capacity() + self.start_cap_builder.capacity())
         }
@@ -139,6 +139,8 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J
         // build segments only from points which are not equal in int space
 
         let n = path.len();
+        if n < 2 { return; }
+
         let mut ip0 = adapter.float_to_int(&path[0]);
         let mut ip = adapter.float_to_int(&path[1]);
         let mut j = 1;
-- 
2.43.0


From 68e41d4843261da5b5eed4a3a4b86703290394d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 21/28] fix: stroke ignored the minimal area of its filter

---
 iOverlay/src/mesh/stroke/offset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index c277654..bda5b05 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -101,8 +101,10 @@ where
             builder.build(path, is_closed_path, &adapter, &mut segments);
         }
 
+        let int_min_area = adapter.sqr_float_to_int(filter.min_area);
+
         let shapes = OverlayGraph::offset_graph_with_solver(segments, Default::default())
-            .extract_offset(main_direction, 0);
+            .extract_offset(main_direction, int_min_area);
 
         let mut float = shapes.to_float(&adapter);
 
-- 
2.43.0


From 2d8d348cbaa9b103bf4e0e6b0e9882e941fceccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 22/28] fix: the inner side of an outline's turn took away what
 short edges do not cover twice

---
 iOverlay/src/mesh/outline/builder.rs      |  2 +-
 iOverlay/src/mesh/outline/builder_join.rs | 33 ++++++++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/iOverlay/src/mesh/outline/builder.rs b/iOverlay/src/mesh/outline/builder.rs
index e2be642..97ca2cc 100644
--- a/iOverlay/src/mesh/outline/builder.rs
+++ b/iOverlay/src/mesh/outline/builder.rs
@@ -47,7 +47,7 @@ impl<P: FloatPointCompatible<T> + 'static, T: FloatNumber + 'static> OutlineBuil
             }),
             LineJoin::Bevel => Box::new(Builder {
                 radius,
-                join_builder: BevelJoinBuilder {},
+                join_builder: BevelJoinBuilder::new(radius),
                 _phantom: Default::default(),
             }),
         };
diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index 7fad3e1..05fa0b4 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -21,9 +21,28 @@ pub(super) trait JoinBuilder<P: FloatPointCompatible<T>, T: FloatNumber> {
     fn additional_offset(&self, radius: T) -> T;
 }
 
-pub(super) struct BevelJoinBuilder;
+pub(super) struct BevelJoinBuilder {
+    expand: bool,
+}
 
 impl BevelJoinBuilder {
+    pub(super) fn new<T: FloatNumber>(radius: T) -> Self {
+        Self { expand: radius >= T::from_float(0.0) }
+    }
+
+    // The inner side of a turn goes through the corner itself. A direct segment would take
+    // away what edges shorter than the offset do not cover twice.
+    #[inline]
+    fn join_inner<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_weak_segment(&s0.b_top, &s0.b, adapter, segments);
+        Self::add_weak_segment(&s0.b, &s1.a_top, adapter, segments);
+    }
+
     #[inline]
     fn join_weak<T: FloatNumber, P: FloatPointCompatible<T>>(
         s0: &Section<P, T>,
@@ -59,7 +78,13 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoin
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::join_weak(s0, s1, adapter, segments);
+        let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
+        let turn = cross_product >= T::from_float(0.0);
+        if turn == self.expand {
+            Self::join_inner(s0, s1, adapter, segments);
+        } else {
+            Self::join_weak(s0, s1, adapter, segments);
+        }
     }
 
     #[inline]
@@ -118,7 +143,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let turn = cross_product >= T::from_float(0.0);
         if turn == self.expand {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner(s0, s1, adapter, segments);
             return
         }
 
@@ -225,7 +250,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let turn = cross_product >= T::from_float(0.0);
         if turn == self.expand {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner(s0, s1, adapter, segments);
             return
         }
 
-- 
2.43.0


From f3c74957c01f55aed26b8bb5646ad85ec04b1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 23/28] fix: an outline lost contours that only bevel and short
 joins border

---
 iOverlay/src/mesh/outline/builder_join.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index 05fa0b4..5792022 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -44,13 +44,17 @@ impl BevelJoinBuilder {
     }
 
     #[inline]
-    fn join_weak<T: FloatNumber, P: FloatPointCompatible<T>>(
+    fn join_outer<T: FloatNumber, P: FloatPointCompatible<T>>(
         s0: &Section<P, T>,
         s1: &Section<P, T>,
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::add_weak_segment(&s0.b_top, &s1.a_top, adapter, segments);
+        let ia = adapter.float_to_int(&s0.b_top);
+        let ib = adapter.float_to_int(&s1.a_top);
+        if ia != ib {
+            segments.push(Segment::bold_subject_ab(ia, ib));
+        }
     }
 
     #[inline]
@@ -83,7 +87,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoin
         if turn == self.expand {
             Self::join_inner(s0, s1, adapter, segments);
         } else {
-            Self::join_weak(s0, s1, adapter, segments);
+            Self::join_outer(s0, s1, adapter, segments);
         }
     }
 
@@ -155,7 +159,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
         let sq_len = ia.sqr_distance(ib);
         if sq_len < 4 {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_outer(s0, s1, adapter, segments);
             return
         }
 
@@ -256,7 +260,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
 
         let dot_product = FloatPointMath::dot_product(&s0.dir, &s1.dir);
         if self.limit_dot_product < dot_product {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_outer(s0, s1, adapter, segments);
             return;
         }
 
-- 
2.43.0


From 0d00424b366d195a72b83c29c2ef5668def629ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 24/28] fix: round outline joins at exact reversals were flat
 when rounding left the range of the cosine

---
 iOverlay/src/mesh/outline/builder_join.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index 5792022..5696ec3 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -264,7 +264,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        // rounding can leave the range of a cosine
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
-- 
2.43.0


From 58c50df61fd22711a85a02fc336d1d9e3f617c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 25/28] fix: outline panicked on empty contours

---
 iOverlay/src/mesh/outline/offset.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iOverlay/src/mesh/outline/offset.rs b/iOverlay/src/mesh/outline/offset.rs
index 76c9d0b..be5dbc3 100644
--- a/iOverlay/src/mesh/outline/offset.rs
+++ b/iOverlay/src/mesh/outline/offset.rs
@@ -107,6 +107,10 @@ where
                 return vec![];
             };
 
+            if path.is_empty() {
+                return vec![];
+            }
+
             let area = path.unsafe_int_area(&adapter);
             if area >= -1 {
                 // single path must be clock-wised
@@ -125,6 +129,10 @@ where
             let mut overlay = Overlay::new(total_capacity);
 
             for path in self.iter_paths() {
+                if path.is_empty() {
+                    continue;
+                }
+
                 let area = path.unsafe_int_area(&adapter);
                 if area.abs() <= 1 {
                     // ignore degenerate paths
-- 
2.43.0


From aba5308225d19c25dc21b31aa83ed9703537cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 26/28] fix: a stroke or an outline has no segments of no
 length

Points of caps and ends of sections which round to the same point of the
grid made segments of no length. The sweeps do not expect such segments:
the fill came out wrong and the walk over the outline never ended.
---
 iOverlay/src/mesh/outline/section.rs    |  4 +++-
 iOverlay/src/mesh/stroke/builder_cap.rs | 20 ++++++++++++++------
 iOverlay/src/mesh/stroke/section.rs     |  8 ++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/mesh/outline/section.rs b/iOverlay/src/mesh/outline/section.rs
index 5dc018c..60e572d 100644
--- a/iOverlay/src/mesh/outline/section.rs
+++ b/iOverlay/src/mesh/outline/section.rs
@@ -42,6 +42,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
     fn add_section(&mut self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>) {
         let a_top = adapter.float_to_int(&section.a_top);
         let b_top = adapter.float_to_int(&section.b_top);
-        self.push(Segment::bold_subject_ab(a_top, b_top));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(a_top, b_top));
+        }
     }
 }
\ No newline at end of file
diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index e2c55d3..b5c1cbe 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -74,12 +74,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.a);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.a_bot);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     pub(super) fn add_to_end(&self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Segment<OffsetCountBoolean>>) {
@@ -90,12 +94,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.b);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.b_top);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     #[inline]
diff --git a/iOverlay/src/mesh/stroke/section.rs b/iOverlay/src/mesh/stroke/section.rs
index ddce88d..6540c4e 100644
--- a/iOverlay/src/mesh/stroke/section.rs
+++ b/iOverlay/src/mesh/stroke/section.rs
@@ -54,7 +54,11 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
         let a_bot = adapter.float_to_int(&section.a_bot);
         let b_bot = adapter.float_to_int(&section.b_bot);
 
-        self.push(Segment::bold_subject_ab(b_top, a_top));
-        self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(b_top, a_top));
+        }
+        if a_bot != b_bot {
+            self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 1f003af51fcc55bfe443500abaf2a96d23e5568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 27/28] fix: a stroke of negative width is one of no width

The builder takes a negative width as zero, the bounds of the internal
grid were still shrunk by it.
---
 iOverlay/src/mesh/stroke/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index bda5b05..7e0b34c 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -79,7 +79,7 @@ where
             return vec![];
         }
 
-        let r = T::from_float(0.5 * style.width.to_f64());
+        let r = T::from_float(0.5 * style.width.to_f64().max(0.0));
         let builder = StrokeBuilder::new(style);
         let a = builder.additional_offset(r);
 
-- 
2.43.0


From 7f7d7709f1c149ffc3311ef6b29b936d6d120c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:50 +0000
Subject: [PATCH 28/28] fix: tree strategy panicked when the edges of a low
 scene cancelled each other out in a round of splitting

---
 iOverlay/src/split/solver_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_list.rs b/iOverlay/src/split/solver_list.rs
index 670abb9..ceb2091 100644
--- a/iOverlay/src/split/solver_list.rs
+++ b/iOverlay/src/split/solver_list.rs
@@ -42,7 +42,7 @@ impl SplitSolver {
 
             snap_radius.increment();
 
-            if need_to_fix && !self.solver.is_list_split(&segments) {
+            if need_to_fix && segments.len() > 1 && !self.solver.is_list_split(&segments) {
                 // finish with tree solver if edges is become large
                 return self.tree_split(snap_radius, segments);
             }
-- 
2.43.0


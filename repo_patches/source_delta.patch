From 6f167aaac2a5e844df27fc634aea6a3d3437a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/17] fix: AABB::contains for a point had its comparisons
 inverted

A box reported that it contains a point only if the box was that very
point. Containment filters over points and point queries over boxes
therefore found nothing.
---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0bb0faf..36c5b44 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -54,7 +54,7 @@ where
     V: Vector,
 {
     fn contains(&self, point: &V) -> bool {
-        self.min.all_ge(point) && self.max.all_le(point)
+        self.min.all_le(point) && self.max.all_ge(point)
     }
 }
 
-- 
2.43.0


From fd1f4c6f4b3fdba866f4463a430734239b98a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 02/17] fix: AABB::contains for a box tested for intersection

A box reported that it contains every box it touches or overlaps, so
containment filters matched keys that stick out of the query box.
---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 36c5b44..8cb220f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -63,7 +63,7 @@ where
     V: Vector,
 {
     fn contains(&self, bounds: &AABB<V>) -> bool {
-        self.min.all_le(&bounds.max) && self.max.all_ge(&bounds.min)
+        self.min.all_le(&bounds.min) && self.max.all_ge(&bounds.max)
     }
 }
 
-- 
2.43.0


From c2f4a787e0d304acefcba0d98e0c9ad4194803e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 03/17] fix: rays hit boxes behind them and missed flat and
 touched boxes

The ray was treated as a line that extends in both directions, boxes
without extent in some dimension were never hit, and a ray with a zero
first component running along the side of a box missed it because of a
NaN. Rays now use the same inclusive test as lines, starting at the
origin.
---
 src/intersects.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index afbebd3..a4b0dce 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -38,14 +38,13 @@ pub(crate) fn ray_bounds_intersect<N, const D: usize>(
 where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
-    let n_inv = 1.0 / (delta[0].clone()).into();
-    let t1 = (b.min[0].clone() - origin[0].clone()).into() * n_inv;
-    let t2 = (b.max[0].clone() - origin[0].clone()).into() * n_inv;
-
-    let mut tmin = f64_min(t1, t2);
-    let mut tmax = f64_max(t1, t2);
+    // The ray starts at its origin and is otherwise unbounded. The finite limit
+    // keeps infinite distances, which are the result of never entering the
+    // bounds, outside of the range.
+    let mut tmin: f64 = 0.0;
+    let mut tmax: f64 = f64::MAX;
 
-    for dim in 1..D {
+    for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
         let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
         let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
@@ -54,7 +53,7 @@ where
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
     }
 
-    tmin < tmax
+    tmin <= tmax
 }
 
 pub(crate) fn line_bounds_intersect<N, const D: usize>(
-- 
2.43.0


From bdc493ff37b191dc500d71324f17ed3bc5b57ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/17] fix: line and ray tests missed touched boxes because of
 rounding

Multiplying by a rounded reciprocal gives different results for equal
distances, for example 49 * (1 / 49) < 1, so a line did not intersect a
box that it just touches. Division rounds correctly, which cannot reorder
the distances.
---
 src/intersects.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index a4b0dce..aa2c6b4 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -45,9 +45,9 @@ where
     let mut tmax: f64 = f64::MAX;
 
     for dim in 0..D {
-        let n_inv = 1.0 / (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
+        let n: f64 = delta[dim].clone().into();
+        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
+        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
@@ -68,9 +68,9 @@ where
     let mut tmax: f64 = 1.0;
 
     for dim in 0..D {
-        let n_inv = 1.0 / (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
+        let n: f64 = delta[dim].clone().into();
+        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
+        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
-- 
2.43.0


From 473a1e3a007ac7aab34e305cd6cdc3b3f04fd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/17] fix: line, ray and sphere tests overflowed for unsigned
 or distant coordinates

Differences of coordinates were computed in the coordinate type, which
panics (or wraps around) when the difference is negative for an unsigned
type or larger than the type can hold. Convert to f64 first.
---
 src/geom/line.rs   |  6 +++++-
 src/geom/sphere.rs |  6 +++++-
 src/intersects.rs  | 21 +++++++++++----------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/geom/line.rs b/src/geom/line.rs
index 3734488..68e7b1a 100644
--- a/src/geom/line.rs
+++ b/src/geom/line.rs
@@ -48,6 +48,10 @@ where
     N: Ord + Clone + Sub<Output = N> + Into<f64>,
 {
     fn intersects(&self, rhs: &SAABB<N, D>) -> bool {
-        line_bounds_intersect(rhs, &self.0, &self.delta())
+        // Coordinates are converted before they are subtracted, because the
+        // difference may not be representable in N.
+        let start: SVec<f64, D> = self.0.clone().into_map(|n| n.into());
+        let end: SVec<f64, D> = self.1.clone().into_map(|n| n.into());
+        line_bounds_intersect(rhs, &self.0, &(end - start))
     }
 }
diff --git a/src/geom/sphere.rs b/src/geom/sphere.rs
index c45a4f8..d63d006 100644
--- a/src/geom/sphere.rs
+++ b/src/geom/sphere.rs
@@ -34,7 +34,11 @@ where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
     fn intersects(&self, rhs: &SVec<N, D>) -> bool {
-        let delta: SVec<f64, D> = (rhs.clone() - self.center.clone()).into_map(|n| n.into());
+        // Coordinates are converted before they are subtracted, because the
+        // difference may not be representable in N.
+        let point: SVec<f64, D> = rhs.clone().into_map(|n| n.into());
+        let center: SVec<f64, D> = self.center.clone().into_map(|n| n.into());
+        let delta = point - center;
         let radius: f64 = (self.radius.clone()).into();
         delta.sq_mag() <= radius * radius
     }
diff --git a/src/intersects.rs b/src/intersects.rs
index aa2c6b4..451fb64 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -1,5 +1,3 @@
-use std::ops::Sub;
-
 use crate::{bounds::SAABB, vector::SVec};
 
 pub trait Intersects<T> {
@@ -36,7 +34,7 @@ pub(crate) fn ray_bounds_intersect<N, const D: usize>(
     delta: &SVec<N, D>,
 ) -> bool
 where
-    N: Clone + Sub<Output = N> + Into<f64>,
+    N: Clone + Into<f64>,
 {
     // The ray starts at its origin and is otherwise unbounded. The finite limit
     // keeps infinite distances, which are the result of never entering the
@@ -46,8 +44,9 @@ where
 
     for dim in 0..D {
         let n: f64 = delta[dim].clone().into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
+        let o: f64 = origin[dim].clone().into();
+        let t1 = (b.min[dim].clone().into() - o) / n;
+        let t2 = (b.max[dim].clone().into() - o) / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
@@ -56,21 +55,23 @@ where
     tmin <= tmax
 }
 
-pub(crate) fn line_bounds_intersect<N, const D: usize>(
+pub(crate) fn line_bounds_intersect<N, M, const D: usize>(
     b: &SAABB<N, D>,
     origin: &SVec<N, D>,
-    delta: &SVec<N, D>,
+    delta: &SVec<M, D>,
 ) -> bool
 where
-    N: Clone + Sub<Output = N> + Into<f64>,
+    N: Clone + Into<f64>,
+    M: Clone + Into<f64>,
 {
     let mut tmin: f64 = 0.0;
     let mut tmax: f64 = 1.0;
 
     for dim in 0..D {
         let n: f64 = delta[dim].clone().into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
+        let o: f64 = origin[dim].clone().into();
+        let t1 = (b.min[dim].clone().into() - o) / n;
+        let t2 = (b.max[dim].clone().into() - o) / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
-- 
2.43.0


From 6be15ab1babad32ace5cb960c39b3673494e4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 06/17] fix: queries on an empty tree passed its inverted
 bounds to filters and rankings

---
 src/iter.rs      | 54 +++++++++++++++++++++++++++++++++++-------------
 src/join.rs      |  7 ++++++-
 src/left_join.rs | 14 +++++++++----
 src/node.rs      |  4 ++++
 4 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2bdccc8..1cc4be1 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -131,7 +131,9 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            // The bounds of an empty tree are not the bounds of any keys, so
+            // they are not passed to the filter.
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 Iter::new(root)
             } else {
                 Iter::new_empty()
@@ -278,7 +280,9 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            // The bounds of an empty tree are not the bounds of any keys, so
+            // they are not passed to the filter.
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 IterMut::new(root)
             } else {
                 IterMut::new_empty()
@@ -361,10 +365,14 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItem { node: root.node() },
-        });
+        // The bounds of an empty tree are not the bounds of any keys, so they
+        // are not passed to the ranking.
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItem { node: root.node() },
+            });
+        }
         SortedIter {
             ranking,
             entries,
@@ -433,12 +441,16 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItemMut {
-                node: root.into_node(),
-            },
-        });
+        // The bounds of an empty tree are not the bounds of any keys, so they
+        // are not passed to the ranking.
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItemMut {
+                    node: root.into_node(),
+                },
+            });
+        }
         SortedIterMut {
             ranking,
             entries,
@@ -504,7 +516,14 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+        // The bounds of an empty tree are not the bounds of any keys, so they
+        // are not passed to the ranking.
+        let score = if root.is_empty() {
+            None
+        } else {
+            ranking.bounds_min(&root.node().bounds)
+        };
+        if let Some(score) = score {
             entries.push(Ranked {
                 score: Reverse((score, root.level() + 1)),
                 value: SortedIterItem { node: root.node() },
@@ -580,7 +599,14 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+        // The bounds of an empty tree are not the bounds of any keys, so they
+        // are not passed to the ranking.
+        let score = if root.is_empty() {
+            None
+        } else {
+            ranking.bounds_min(&root.node().bounds)
+        };
+        if let Some(score) = score {
             entries.push(Ranked {
                 score: Reverse((score, root.level() + 1)),
                 value: SortedIterItemMut {
diff --git a/src/join.rs b/src/join.rs
index 7c2c756..f2004f3 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -127,7 +127,12 @@ where
         root1: NodeRef<'b, B1, Key1, Value1>,
         filter: Filter,
     ) -> Self {
-        if !filter.test_bounds(&root0.node().bounds, &root1.node().bounds) {
+        // The bounds of an empty tree are not the bounds of any keys, so they
+        // are not passed to the filter.
+        if root0.is_empty()
+            || root1.is_empty()
+            || !filter.test_bounds(&root0.node().bounds, &root1.node().bounds)
+        {
             return Self {
                 stack: IterStack::empty_box(),
                 padding0: 0,
diff --git a/src/left_join.rs b/src/left_join.rs
index 6e76c3e..3df6965 100644
--- a/src/left_join.rs
+++ b/src/left_join.rs
@@ -114,15 +114,21 @@ where
             empty_slice().iter(),
             (0..root_left.level() + 1).map(|_| empty_slice().iter()),
         );
-        left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
-            slice::from_ref(root_left.node()).iter();
+        // The bounds of an empty tree are not the bounds of any keys, so an
+        // empty root is left out in order not to pass them to the filter.
+        if !root_left.is_empty() {
+            left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
+                slice::from_ref(root_left.node()).iter();
+        }
 
         let mut right = IterStack::new_box(
             RewindableIter::new(empty_slice()),
             (0..root_right.level() + 1).map(|_| RewindableIter::new(empty_slice())),
         );
-        right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
-            RewindableIter::new(slice::from_ref(root_right.node()));
+        if !root_right.is_empty() {
+            right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
+                RewindableIter::new(slice::from_ref(root_right.node()));
+        }
 
         let right_alloc = unsafe {
             let alloc_helper = IterStackAllocHelper::new(root_right.level() + 2);
diff --git a/src/node.rs b/src/node.rs
index e3d564c..169cd4e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -572,6 +572,10 @@ impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
         self.node
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.shallow_len() == 0
+    }
+
     pub(crate) fn into_children_mut(self) -> NodeChildrenRefMut<'a, B, Key, Value> {
         if let Some(level) = NonZeroUsize::new(self.level) {
             NodeChildrenRefMut::Inner(InnerNodeChildrenRefMut {
-- 
2.43.0


From 57b29ebef8555e7263fd9c6adaceea36f57d85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 07/17] fix: removal left a root with a single child, and later
 an inner root without children

---
 src/node.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 169cd4e..ec7596c 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -799,6 +799,11 @@ where
                 }
             }
 
+            // If nodes are allowed to have a single child, the root may still
+            // have a single child. All entries have been reinserted, so no
+            // entry needs the levels that are removed here.
+            while self.try_unbranch() {}
+
             Some(value)
         } else {
             None
@@ -845,7 +850,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         self.level += 1;
     }
 
-    fn try_unbranch(&mut self) {
+    /// Replaces an inner root that has a single child with that child. Returns
+    /// `true` if the root was replaced.
+    fn try_unbranch(&mut self) -> bool {
         let new_root = match self.borrow_mut().children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 if children.len() == 1 {
@@ -861,6 +868,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         };
         if let Some(new_root) = new_root {
             *self = new_root;
+            true
+        } else {
+            false
         }
     }
 
-- 
2.43.0


From dee845fb826e9f803e8f7ee04cab7a67091fecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 08/17] fix: remove did not remove the first of several entries
 with equal keys

---
 src/node.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index ec7596c..ceab915 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -524,9 +524,9 @@ where
         let min_children = self.alloc.min_children;
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
-                let mut i = children.len();
-                while i > 0 {
-                    i -= 1;
+                // The children are searched in iteration order, so that the
+                // removed entry is the first one.
+                for i in 0..children.len() {
                     let mut child = children.at_mut(i);
                     if child.bounds().intersects(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
-- 
2.43.0


From 74e0fe59e80978dea88a654a977cf28682c7096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 09/17] fix: volume and distance of bounds overflowed for
 unsigned or distant coordinates

---
 src/bounds.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 8cb220f..4785bf7 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -140,7 +140,9 @@ where
 
         self.min
             .zip(&self.max)
-            .map(|(min, max)| n64((max.clone() - min.clone()).into()))
+            // Coordinates are converted before they are subtracted, because the
+            // difference may not be representable in N.
+            .map(|(min, max)| n64(max.clone().into() - min.clone().into()))
             .reduce(|acc, length| acc * length)
             .unwrap()
     }
@@ -158,10 +160,12 @@ where
             other.max.0.iter()
         )
         .map(|(lhs_min, lhs_max, rhs_min, rhs_max)| {
+            // Coordinates are converted before they are subtracted, because the
+            // difference may not be representable in N.
             // If lhs < rhs, lhs_then_rhs is a positive number representing the distance between the two
-            let lhs_then_rhs = n64((rhs_min.clone() - lhs_max.clone()).into());
+            let lhs_then_rhs = n64(rhs_min.clone().into() - lhs_max.clone().into());
             // If lhs > rhs, rhs_then_lhs is a positive number representing the distance between the two
-            let rhs_then_lhs = n64((lhs_min.clone() - rhs_max.clone()).into());
+            let rhs_then_lhs = n64(lhs_min.clone().into() - rhs_max.clone().into());
 
             // The distance between the two bounds is the maximum of the two distances, or 0 if they overlap
             let dist = cmp::max(cmp::max(lhs_then_rhs, rhs_then_lhs), n64(0.0));
-- 
2.43.0


From 60adfc3c56e3dfe733bb69fae29f07c308cff4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 10/17] fix: entries without a size were lost and allocated
 without a size

---
 src/fc_vec.rs | 60 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index e02d8c8..db1b6a3 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -107,6 +107,32 @@ impl<'a, T> IntoIterator for &'a mut FCVec<T> {
     }
 }
 
+/// Allocates a buffer for `cap` items. Buffers without a size, which is the
+/// case if `T` has no size, must not be allocated and use a dangling pointer.
+fn alloc_buf<T>(cap: usize) -> NonNull<T> {
+    let layout = alloc::Layout::array::<T>(cap).unwrap();
+    if layout.size() == 0 {
+        return NonNull::dangling();
+    }
+    match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
+        Some(ptr) => ptr,
+        None => alloc::handle_alloc_error(layout),
+    }
+}
+
+/// Deallocates a buffer allocated with [alloc_buf].
+///
+/// # Safety
+///
+/// The buffer must have been allocated by [alloc_buf] with the same `cap` and
+/// must not have been deallocated.
+unsafe fn dealloc_buf<T>(buf: NonNull<T>, cap: usize) {
+    let layout = alloc::Layout::array::<T>(cap).unwrap();
+    if layout.size() != 0 {
+        alloc::dealloc(buf.as_ptr() as *mut u8, layout);
+    }
+}
+
 /// Defines operations on [FCVec<T>] with a specified capacity.
 ///
 /// # Safety
@@ -127,11 +153,7 @@ impl Alloc {
     /// Allocates an empty [FCVec<T>] with the capacity specified by this
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
-        let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        let buf = match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
-            Some(ptr) => ptr,
-            None => alloc::handle_alloc_error(layout),
-        };
+        let buf = alloc_buf(self.cap);
         FCVecContainer {
             data: FCVec { buf, len: 0 },
             ops: *self,
@@ -333,8 +355,7 @@ impl<'a, T> FCVecRefMut<'a, T> {
         // Drop all items in the FCVec
         while self.pop().is_some() {}
 
-        let layout = alloc::Layout::array::<T>(self.ops.cap).unwrap();
-        alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        dealloc_buf(self.data.buf, self.ops.cap);
     }
 }
 
@@ -441,13 +462,11 @@ impl<T> IntoIterator for FCVecContainer<T> {
         let ops = unsafe { ptr::read(&self.ops) };
         mem::forget(self);
 
-        let start = data.buf.as_ptr();
-        let end = unsafe { start.add(data.len) };
         IntoIter {
             buf: data.buf,
             cap: ops.cap,
-            start,
-            end,
+            start: 0,
+            end: data.len,
         }
     }
 }
@@ -500,8 +519,8 @@ impl<T> FCVecContainer<T> {
 pub(crate) struct IntoIter<T> {
     buf: NonNull<T>,
     cap: usize,
-    start: *const T,
-    end: *const T,
+    start: usize,
+    end: usize,
 }
 
 impl<T> Iterator for IntoIter<T> {
@@ -512,15 +531,15 @@ impl<T> Iterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                let result = ptr::read(self.start);
-                self.start = self.start.add(1);
+                let result = ptr::read(self.buf.as_ptr().add(self.start));
+                self.start += 1;
                 Some(result)
             }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.end as usize - self.start as usize) / std::mem::size_of::<T>();
+        let len = self.end - self.start;
         (len, Some(len))
     }
 }
@@ -531,8 +550,8 @@ impl<T> DoubleEndedIterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                self.end = self.end.sub(1);
-                let result = ptr::read(self.end);
+                self.end -= 1;
+                let result = ptr::read(self.buf.as_ptr().add(self.end));
                 Some(result)
             }
         }
@@ -542,9 +561,6 @@ impl<T> DoubleEndedIterator for IntoIter<T> {
 impl<T> Drop for IntoIter<T> {
     fn drop(&mut self) {
         for _ in &mut *self {}
-        let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        unsafe {
-            alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
-        }
+        unsafe { dealloc_buf(self.buf, self.cap) };
     }
 }
-- 
2.43.0


From 660d1745517a57b42f85af08ac689428d28fe4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 11/17] fix: the length of a line overflowed for unsigned or
 distant coordinates

---
 src/geom/line.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geom/line.rs b/src/geom/line.rs
index 68e7b1a..80da1fd 100644
--- a/src/geom/line.rs
+++ b/src/geom/line.rs
@@ -35,7 +35,11 @@ where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
     pub fn sq_len(&self) -> f64 {
-        (self.delta()).into_map(|n| n.into()).sq_mag()
+        // Coordinates are converted before they are subtracted, because the
+        // difference may not be representable in N.
+        let start: SVec<f64, D> = self.0.clone().into_map(|n| n.into());
+        let end: SVec<f64, D> = self.1.clone().into_map(|n| n.into());
+        (end - start).sq_mag()
     }
 
     pub fn len(&self) -> f64 {
-- 
2.43.0


From 0649806859443cacfc19385861ec4cb3dafed959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 12/17] fix: the distance between points underflowed for
 unsigned coordinates

---
 src/ranking.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ranking.rs b/src/ranking.rs
index edaadd3..856dcff 100644
--- a/src/ranking.rs
+++ b/src/ranking.rs
@@ -1,4 +1,5 @@
 use std::{
+    array,
     marker::PhantomData,
     ops::{Add, Mul, Sub},
 };
@@ -44,10 +45,20 @@ pub trait PointDistance<V, N> {
 
 impl<N, const D: usize> PointDistance<SVec<N, D>, N> for SVec<N, D>
 where
-    N: Clone + Sub<Output = N> + Mul<Output = N> + Add<Output = N>,
+    N: Clone + PartialOrd + Sub<Output = N> + Mul<Output = N> + Add<Output = N>,
 {
     fn dist_sq(&self, point: &SVec<N, D>) -> N {
-        (self.clone() - point.clone()).sq_mag()
+        // The smaller coordinate is subtracted from the larger one, because a
+        // negative difference may not be representable in N.
+        let delta: SVec<N, D> = SVec(array::from_fn(|i| {
+            let (lhs, rhs) = (self[i].clone(), point[i].clone());
+            if lhs < rhs {
+                rhs - lhs
+            } else {
+                lhs - rhs
+            }
+        }));
+        delta.sq_mag()
     }
 }
 
-- 
2.43.0


From 479baa886a1547ea796552dbf6daf8ea89e218c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 13/17] fix: the bounds of a sphere overflowed at the ends of
 the coordinate range

---
 src/geom/sphere.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/geom/sphere.rs b/src/geom/sphere.rs
index d63d006..cc80a57 100644
--- a/src/geom/sphere.rs
+++ b/src/geom/sphere.rs
@@ -16,15 +16,24 @@ where
     N: Clone + Sub<Output = N> + Add<Output = N> + Ord + num_traits::Bounded,
 {
     fn bounds(&self) -> SAABB<N, D> {
+        // Bounds that would exceed the range of N are cut off at its ends.
+        let lowest = N::min_value() + self.radius.clone();
+        let highest = N::max_value() - self.radius.clone();
         SAABB {
-            min: self
-                .center
-                .clone()
-                .into_map(|coord| coord - self.radius.clone()),
-            max: self
-                .center
-                .clone()
-                .into_map(|coord| coord + self.radius.clone()),
+            min: self.center.clone().into_map(|coord| {
+                if coord < lowest {
+                    N::min_value()
+                } else {
+                    coord - self.radius.clone()
+                }
+            }),
+            max: self.center.clone().into_map(|coord| {
+                if coord > highest {
+                    N::max_value()
+                } else {
+                    coord + self.radius.clone()
+                }
+            }),
         }
     }
 }
-- 
2.43.0


From 24344f655e7658cbe8ca9904c7e946447f7303e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 14/17] fix: nodes became empty if no fewest number of children
 was configured

With min_children of 0 the nodes of a tree were never removed, so that
is_empty() was false for trees without entries.
---
 src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index ceab915..48c9d28 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -521,7 +521,8 @@ where
         Key: Eq + Borrow<Q>,
         Q: Bounded<B> + Eq + ?Sized,
     {
-        let min_children = self.alloc.min_children;
+        // Nodes must not be empty, or the tree would not seem to be.
+        let min_children = self.alloc.min_children.max(1);
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 // The children are searched in iteration order, so that the
-- 
2.43.0


From 2ecbb06d305f4b73b502bae59ee5a382216105d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 15/17] fix: the root was dropped twice if nodes can have a
 single child only

With max_children of 1 the second child did not fit into the new root, and
the root, which had been moved, was dropped again while unwinding.
---
 src/fc_vec.rs | 5 +++++
 src/node.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index db1b6a3..1002833 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -150,6 +150,11 @@ impl Alloc {
         Alloc { cap }
     }
 
+    /// Returns the capacity of the vectors.
+    pub(crate) fn cap(&self) -> usize {
+        self.cap
+    }
+
     /// Allocates an empty [FCVec<T>] with the capacity specified by this
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
diff --git a/src/node.rs b/src/node.rs
index 48c9d28..12c9ca0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -824,6 +824,11 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
             )
         }
 
+        // This must not fail while the root is moved below.
+        if self.alloc.children.cap() < 2 {
+            panic!("cannot branch when nodes can have less than 2 children")
+        }
+
         let bounds = B::union(&self.node.bounds, &sibling.node.bounds);
         let mut next_root_children = self.alloc.children.new_vec();
         // The below operation redefines the root node to be an inner node that
-- 
2.43.0


From 3e668c32a7b2b5c4abbc5aec0269a69799917f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 16/17] fix: removal finds keys with empty bounds in trees with
 inner nodes

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 12c9ca0..ebe5e29 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -529,7 +529,7 @@ where
                 // removed entry is the first one.
                 for i in 0..children.len() {
                     let mut child = children.at_mut(i);
-                    if child.bounds().intersects(&key.bounds()) {
+                    if child.bounds().contains(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
                         if let Some(value) = value {
                             if child.shallow_len() < min_children {
-- 
2.43.0


From bac830b03b7d37aac5263b8c3c23b6208c948b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 17/17] fix: the volume of empty bounds is zero

---
 src/bounds.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bounds.rs b/src/bounds.rs
index 4785bf7..483c2ef 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -143,6 +143,8 @@ where
             // Coordinates are converted before they are subtracted, because the
             // difference may not be representable in N.
             .map(|(min, max)| n64(max.clone().into() - min.clone().into()))
+            // Empty bounds are inverted and have no volume.
+            .map(|length| cmp::max(length, n64(0.0)))
             .reduce(|acc, length| acc * length)
             .unwrap()
     }
-- 
2.43.0


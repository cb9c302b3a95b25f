From 8877a42a07c9262ade59fa8ee298f0144e65013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 01/12] fix: answer queries on trees whose root is a leaf

With no more points than the leafsize the whole tree is a single leaf, and
every query panicked in Node::stem.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfe4ef2..2af41c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -110,10 +110,12 @@ impl<T: Float, const D: usize> Node<T, D> {
         }
     }
 
+    /// A point of this node: the stem's own point, or (e.g. if the root itself is a leaf) the
+    /// first point of a leaf.
     fn stem<'a>(&'a self) -> &'a Point<T, D> {
         match self {
             Node::Stem { point, .. } => point,
-            _ => unreachable!("only to be used on stems"),
+            Node::Leaf { points, .. } => &points[0],
         }
     }
 
-- 
2.43.0


From 2b3027e7b9d7e6138ce8977a7ba11db915d9115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 02/12] fix: reject invalid data before building the tree

The data check ran concurrently with the build and was only consulted after
it, so the build compared NaNs with unwrap_unchecked (undefined behaviour)
instead of returning InvalidInputData.
---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2af41c6..196d22c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,6 +171,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 data_len, leafsize,
             ))));
 
+            // Ensure we've checked data before building: comparisons assume there is no NaN
+            handle.join().unwrap()?;
+
             // Run recursive build
             Tree::<'t, T, D>::build_nodes_parallel::<FIRST, true>(
                 vec_ref,
@@ -248,9 +251,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             };
             let root_node = unsafe { nodes.pop().unwrap_unchecked() };
 
-            // Ensure we've checked data before returning
-            unsafe { handle.join().unwrap_unchecked()? };
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -491,6 +491,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             let initial_vec_ref = timer.elapsed().as_nanos();
             let mut nodes = Vec::with_capacity(size_of_tree(data_len, leafsize));
 
+            // Ensure we've checked data before building: comparisons assume there is no NaN
+            handle.join().unwrap()?;
+
             // Run recursive build
             Tree::<'t, T, D>::build_nodes::<FIRST, true>(
                 vec_ref,
@@ -560,9 +563,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
             let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
 
-            // ensure we've checked data before returning
-            handle.join().unwrap()?;
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
-- 
2.43.0


From af67fcbb2662301b1f77bd61dceb8a37a707996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 03/12] fix: return no neighbors for k = 0

Container::push replaced the largest element of an empty heap
(unwrap_unchecked on None) when no neighbors were requested.
---
 src/query_k.rs               |  5 +++++
 src/query_k/parallel.rs      |  8 +++++++-
 src/query_k/parallel_axis.rs | 13 ++++++++++++-
 src/query_k/parallel_with.rs |  8 +++++++-
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/query_k.rs b/src/query_k.rs
index ea50d65..0f81039 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -25,6 +25,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Check for valid query point
         let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+        // No neighbors requested
+        if k == 0 {
+            return Ok(Container::new(0).index(self.start()));
+        }
+
         if let Some(ref boxsize) = self.boxsize {
             // Periodic query
             Ok(self.query_nearest_k_periodic(query, k, boxsize))
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 25bb3e5..b3548df 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -19,6 +19,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     ) -> FnntwResult<QueryKResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
 
+        // No neighbors requested
+        if k == 0 {
+            check_data(queries)?;
+            return Ok((vec![], vec![]));
+        }
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 781ff13..6b85561 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -5,7 +5,7 @@ use std::fmt::Debug;
 use crate::{
     distance::{calc_dist_sq_to_space, new_best_kth_axis},
     point::{Float, Point},
-    utils::{check_point_return, FnntwError, FnntwResult},
+    utils::{check_data, check_point_return, FnntwError, FnntwResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -26,6 +26,17 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // No neighbors requested
+        if k == 0 {
+            check_data(queries)?;
+            return Ok((
+                vec![],
+                vec![],
+                #[cfg(not(feature = "no-index"))]
+                vec![],
+            ));
+        }
+
         let mut axes = Vec::with_capacity(queries.len() * k);
         let mut nonaxes = Vec::with_capacity(queries.len() * k);
         #[cfg(not(feature = "no-index"))]
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 4822629..62cdd47 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -20,6 +20,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
         use sync_unsafe_cell::SyncUnsafeCell;
 
+        // No neighbors requested
+        if k == 0 {
+            check_data(queries)?;
+            return Ok((vec![], vec![]));
+        }
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
-- 
2.43.0


From c2e3bcfc3cd2b9138d1c2eab8cbe65ad11f279f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 04/12] fix: clamp k to the number of points in batch queries

With more neighbors requested than points, rows were written at the clamped
stride but the result was given the length for the requested k, exposing
uninitialized memory (query_nearest_k_parallel_with never filled its
containers at all). Rows now have min(k, n) entries, as in query_nearest_k.
---
 src/query_k/parallel.rs      | 3 +++
 src/query_k/parallel_axis.rs | 3 +++
 src/query_k/parallel_with.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index b3548df..4a7880b 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -19,6 +19,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     ) -> FnntwResult<QueryKResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
 
+        // There are no more neighbors than data points
+        let k = k.min(self.data.len());
+
         // No neighbors requested
         if k == 0 {
             check_data(queries)?;
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 6b85561..08c5b22 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -26,6 +26,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // There are no more neighbors than data points
+        let k = k.min(self.data.len());
+
         // No neighbors requested
         if k == 0 {
             check_data(queries)?;
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 62cdd47..a2bb3fb 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -20,6 +20,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
         use sync_unsafe_cell::SyncUnsafeCell;
 
+        // There are no more neighbors than data points
+        let k = k.min(self.data.len());
+
         // No neighbors requested
         if k == 0 {
             check_data(queries)?;
-- 
2.43.0


From 7343ed081421a0f519bbf28112f57aa37a8c67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 05/12] fix: size_of_tree underflowed for leafsize 0

The sizes of the children did not match the split at datalen / 2 and wrapped
around for subsets of one point, so building with leafsize 0 overflowed the
stack (or panicked in debug builds).
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 196d22c..44a91fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -822,8 +822,8 @@ mod tests {
 
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
-        let left = datalen / 2 - 1;
-        let right = datalen / 2 - datalen % 2;
+        let left = datalen / 2;
+        let right = datalen - left - 1;
         1 + size_of_tree(left, leafsize) + size_of_tree(right, leafsize)
     } else if datalen == 0 {
         0
-- 
2.43.0


From 12f0fae12ebf5a383864c57c72bef6b58ab2985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 06/12] fix: keep large subsets with many equal values balanced

For 100k or more elements moms_seq always split at the first element equal
to the median. With many equal coordinates that peels off one point at a
time, and the recursive build overflowed the stack.
---
 src/moms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/moms.rs b/src/moms.rs
index 90295f0..f94eb2e 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -296,7 +296,10 @@ pub fn moms_seq<T: Float, const D: usize>(
         right_timer.elapsed().as_micros()
     );
 
-    let (left, remainder) = slice.split_at_mut(left);
+    // Any of the elements equal to the median may be the split. Choose the one closest to the
+    // middle, so that many equal values don't result in an unbalanced (very deep) tree
+    let split = (slice.len() / 2).clamp(left, left + equal - 1);
+    let (left, remainder) = slice.split_at_mut(split);
     let (approx_median, right) = remainder.split_first_mut().unwrap();
 
     (left, approx_median, right)
-- 
2.43.0


From c76405e245125b1e92be1be14ae853103dcbd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 07/12] fix: do not lose neighbors whose squared distance
 overflows

The search started from a dummy at T::max_value(), so points at infinite
squared distance were never accepted: query_nearest reported the dummy's
distance and the k-nearest queries exposed uninitialized memory. Start from
infinity, and visit spaces at exactly the current worst distance.
---
 src/query.rs                 | 2 +-
 src/query_k.rs               | 6 +++---
 src/query_k/parallel.rs      | 4 ++--
 src/query_k/parallel_axis.rs | 6 +++---
 src/query_k/parallel_with.rs | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index db1b8d2..ad2dba4 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -39,7 +39,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut points_to_check: Vec<(&usize, &Point<T, D>, T)> =
             Vec::with_capacity(self.height_hint);
 
-        let mut current_best_dist_sq = T::max_value();
+        let mut current_best_dist_sq = T::infinity();
         let mut current_best_neighbor: &'q Point<T, D> = current_node.stem();
 
         // Recurse down (and then up and down) the stem
diff --git a/src/query_k.rs b/src/query_k.rs
index 0f81039..d7b8e27 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -59,7 +59,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Initialize candidate container with dummy point
         let mut container = Container::new(k.min(self.input.len()));
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -89,7 +89,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // Initialize candidate container with dummy point
             let mut container = Container::new(k.min(self.input.len()));
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -308,7 +308,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
             if better_dist2 {
                 self.check_child_k(query, sibling, parent, container, points_to_check);
             }
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 4a7880b..a777eba 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -116,7 +116,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -142,7 +142,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 08c5b22..fbb019a 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -139,7 +139,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
         container.push((
-            (T::max_value(), T::max_value(), T::max_value()),
+            (T::infinity(), T::infinity(), T::infinity()),
             current_node.stem(),
         ));
 
@@ -179,7 +179,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
             container.push((
-                (T::max_value(), T::max_value(), T::max_value()),
+                (T::infinity(), T::infinity(), T::infinity()),
                 current_node.stem(),
             ));
 
@@ -409,7 +409,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
             if better_dist2 {
                 self.check_child_k_axis(query, sibling, parent, container, points_to_check, axis);
             }
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index a2bb3fb..c60655b 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -131,7 +131,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -157,7 +157,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
-- 
2.43.0


From 516f43187c063694773ff6e545ee490c37cbe12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 08/12] fix: bound the stack used by queries

Each visited sibling stem nested two more calls, so queries visiting many
nodes (large k on large trees) overflowed the stack. Only descend from a
sibling; the loop that empties the queue already visits the rest, in the
same order.
---
 src/query.rs                 | 28 ++++++++++++++++++++++++----
 src/query_k.rs               | 21 +++++++++++++++++----
 src/query_k/parallel_axis.rs | 22 ++++++++++++++++++----
 3 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index ad2dba4..7f1f104 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -206,7 +206,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent(query, stem, current_best_dist_sq, current_best_neighbor);
-                self.check_stem(
+                self.descend(
                     query,
                     sibling,
                     current_best_dist_sq,
@@ -239,9 +239,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
-
-    fn check_stem<'i, 'o>(
+    /// If sibling is a stem, then we need to go back down, until we have checked a leaf
+    fn descend<'i, 'o>(
         &'i self,
         query: &[NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -310,6 +309,27 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             current_best_dist_sq,
             current_best_neighbor,
         );
+    }
+
+    /// Search the tree below `stem`
+    fn check_stem<'i, 'o>(
+        &'i self,
+        query: &[NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        current_best_dist_sq: &'o mut T,
+        current_best_neighbor: &'o mut &'i Point<T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend(
+            query,
+            stem,
+            current_best_dist_sq,
+            current_best_neighbor,
+            points_to_check,
+        );
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k.rs b/src/query_k.rs
index d7b8e27..842d962 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -220,7 +220,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k(query, stem, container);
-                self.check_stem_k(query, sibling, container, points_to_check)
+                self.descend_k(query, sibling, container, points_to_check)
             }
         }
     }
@@ -240,9 +240,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
-
-    fn check_stem_k<'i, 'o>(
+    /// If sibling is a stem, then we need to go back down, until we have checked a leaf
+    fn descend_k<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -305,6 +304,20 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k(query, current_node.iter(), container);
+    }
+
+    /// Search the tree below `stem`
+    fn check_stem_k<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut Container<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_k(query, stem, container, points_to_check);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index fbb019a..987d77e 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -323,7 +323,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k_axis(query, stem, container, axis);
-                self.check_stem_k_axis(query, sibling, container, points_to_check, axis)
+                self.descend_k_axis(query, sibling, container, points_to_check, axis)
             }
         }
     }
@@ -344,9 +344,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
-
-    fn check_stem_k_axis<'i, 'o>(
+    /// If sibling is a stem, then we need to go back down, until we have checked a leaf
+    fn descend_k_axis<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -406,6 +405,21 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k_axis(query, current_node.iter(), container, axis);
+    }
+
+    /// Search the tree below `stem`
+    fn check_stem_k_axis<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut ContainerAxis<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+        axis: usize,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_k_axis(query, stem, container, points_to_check, axis);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-- 
2.43.0


From 2826826b7d7ca99dc52491fcffcb008dc6658054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 09/12] fix: clamp k to the number of points in the python
 binding

---
 pyfnntw/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c7c9526..c6dc222 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -137,7 +137,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                // There are no more neighbors than data points
+                let k = k.unwrap_or(1).min(slf.0.size());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -157,7 +158,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    // There are no more neighbors than data points
+                    let k = k.unwrap().min(slf.0.size());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -325,7 +327,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // }
 
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                // There are no more neighbors than data points
+                let k = k.unwrap_or(1).min(slf.0.size());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -345,7 +348,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    // There are no more neighbors than data points
+                    let k = k.unwrap().min(slf.0.size());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -452,6 +456,7 @@ struct Tree3<'a, T: Float> {
 // }
 
 trait FNTree<T: Float> {
+    fn size(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k_axis(
@@ -466,6 +471,10 @@ macro_rules! tree_impl {
     ($float:ty, $dim:literal) => {
         concat_idents::concat_idents!(tree = Tree, $dim {
             impl<'a> FNTree<$float> for tree<'a, $float> {
+                fn size(&self) -> usize {
+                    self.borrow_data().len()
+                }
+
                 fn query(&self, query: ArrayView2<$float>) -> PyResult<(Vec<$float>, Vec<u64>)> {
                     // Check dimensions of data
                     let dims: [usize; 2] = query
-- 
2.43.0


From 879fbb54cc903b5b4b8321e7a0e1c81077a6b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 10/12] fix: answer batches of one query outside the thread
 pool

---
 src/query_k/parallel_with.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index c60655b..34e239e 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -53,9 +53,10 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
-                    // Get pre-allocated buffers if available
+                    // Get pre-allocated buffers if available. A single query is not sent to the
+                    // thread pool but runs on the calling thread, which has no index
                     let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap_or(0)].get() };
 
                     // Periodic query
                     self.query_nearest_k_periodic_into_with(
@@ -81,10 +82,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // let (mut container, mut point_vec) =
                     //     (Container::new(k), Vec::with_capacity(self.height_hint));
 
-                    // Get pre-allocated buffers if available
+                    // Get pre-allocated buffers if available. A single query is not sent to the
+                    // thread pool but runs on the calling thread, which has no index
                     // let (ref tx, ref rx) = tx_rx_vec[rayon::current_thread_index().unwrap() / 4];
                     let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap_or(0)].get() };
                     // let (mut container, mut point_vec) = rx.try_recv().unwrap_or_else(|_| {
                     //     (Container::new(k), Vec::with_capacity(self.height_hint))
                     // });
-- 
2.43.0


From 00b527e6fe6c591a8a7b51568f4ce717ae56a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 11/12] fix: raise errors rather than panic in the python
 binding

---
 pyfnntw/src/lib.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c6dc222..ef65f92 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -59,7 +59,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -94,7 +94,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -216,7 +216,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -228,10 +228,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 2] = boxsize.as_slice()?.try_into()?;
@@ -252,7 +251,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -264,10 +263,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 3] = boxsize.as_slice()?.try_into()?;
@@ -455,6 +453,10 @@ struct Tree3<'a, T: Float> {
 //     }
 // }
 
+fn not_contiguous() -> PyErr {
+    PyValueError::new_err("arrays must be C-contiguous")
+}
+
 trait FNTree<T: Float> {
     fn size(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
@@ -489,20 +491,18 @@ macro_rules! tree_impl {
                         ));
                     }
 
-                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
+                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().ok_or_else(not_contiguous)?);
 
                     let kdtree = self.borrow_tree();
-                    let query_size = query.len();
-                    let mut distances = Vec::with_capacity(query_size);
-                    let mut indices = Vec::with_capacity(query_size);
-                    query
+                    let neighbors = query
                         .into_par_iter()
-                        .map_with(kdtree, |t, q| {
-                            t.query_nearest(q).expect("you likely have a nan")
-                        })
-                        .unzip_into_vecs(&mut distances, &mut indices);
+                        .map_with(kdtree, |t, q| t.query_nearest(q))
+                        .collect::<FnntwResult<Vec<($float, u64)>, $float>>()
+                        .map_err(|e| {
+                            PyValueError::new_err(format!("query failed {e}"))
+                        })?;
 
-                    Ok((distances, indices))
+                    Ok(neighbors.into_iter().unzip())
                 }
 
                 fn query_k(
@@ -525,7 +525,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     {
@@ -606,7 +606,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     self.borrow_tree().query_nearest_k_parallel_axis(query, k, axis).map_err(|e| {
-- 
2.43.0


From 38a51908fe107e7ac5563070d196f05b0dd2ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 12/12] fix: keep the array of points alive in the python
 binding

---
 pyfnntw/src/lib.rs | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index ef65f92..1d36441 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -15,9 +15,17 @@ use rayon::prelude::*;
 #[pymodule]
 fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyclass]
-    struct Treef32(Box<dyn FNTree<f32> + Send + Sync + 'static>);
+    struct Treef32(
+        Box<dyn FNTree<f32> + Send + Sync + 'static>,
+        // The tree refers to this array: dropped after it
+        #[allow(dead_code)] Py<PyArray2<f32>>,
+    );
     #[pyclass]
-    struct Treef64(Box<dyn FNTree<f64> + Send + Sync + 'static>);
+    struct Treef64(
+        Box<dyn FNTree<f64> + Send + Sync + 'static>,
+        // The tree refers to this array: dropped after it
+        #[allow(dead_code)] Py<PyArray2<f64>>,
+    );
 
     #[pymethods]
     impl Treef32 {
@@ -45,6 +53,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // Keep the array alive for as long as the tree refers to it
+            let owner: Py<PyArray2<f32>> = PyArray2::to_owned(&data);
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -54,9 +65,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the tree is stored along with a reference to the array.
+                    // Note that it must not be modified while the tree is in use.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -86,12 +96,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the tree is stored along with a reference to the array.
+                    // Note that it must not be modified while the tree is in use.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -120,7 +129,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         }
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
@@ -202,6 +211,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // Keep the array alive for as long as the tree refers to it
+            let owner: Py<PyArray2<f64>> = PyArray2::to_owned(&data);
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -211,9 +223,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the tree is stored along with a reference to the array.
+                    // Note that it must not be modified while the tree is in use.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -243,12 +254,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the tree is stored along with a reference to the array.
+                    // Note that it must not be modified while the tree is in use.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -278,7 +288,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
-- 
2.43.0


From 1b678622629214340666732749a3051d03e3825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 01/16] fix: do not assume the root node is a stem when
 starting a query

A tree whose data fits in one leaf has a leaf as its root, and every query on
it panicked in Node::stem(). Start the searches from an infinite distance
instead of from a dummy candidate taken from the root stem.
---
 src/distance.rs               |  4 ++--
 src/lib.rs                    |  7 -------
 src/query.rs                  |  5 +++--
 src/query_k.rs                | 14 ++++++--------
 src/query_k/container.rs      |  8 ++++++--
 src/query_k/container_axis.rs |  8 ++++++--
 src/query_k/parallel.rs       |  4 +---
 src/query_k/parallel_axis.rs  | 12 ++----------
 src/query_k/parallel_with.rs  |  4 +---
 9 files changed, 27 insertions(+), 39 deletions(-)

diff --git a/src/distance.rs b/src/distance.rs
index c2a6d97..41c46b9 100644
--- a/src/distance.rs
+++ b/src/distance.rs
@@ -92,7 +92,7 @@ pub(crate) fn new_best_kth<'t, 'i, 'o, T: Float, const D: usize>(
     let dist_sq: T = squared_euclidean(query, candidate.position());
 
     // Compare squared dist
-    if dist_sq <= *container.best_dist2() {
+    if dist_sq <= container.best_dist2() {
         container.push((dist_sq, candidate));
     }
 }
@@ -111,7 +111,7 @@ pub(crate) fn new_best_kth_axis<'t, 'i, 'o, T: Float, const D: usize>(
     let (dist2, ax, nonax) = squared_euclidean_axis(query, candidate.position(), axis);
 
     // Compare squared dist
-    if dist2 <= *container.best_dist2() {
+    if dist2 <= container.best_dist2() {
         container.push(((dist2, ax, nonax), candidate));
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index cfe4ef2..2ee0df0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -110,13 +110,6 @@ impl<T: Float, const D: usize> Node<T, D> {
         }
     }
 
-    fn stem<'a>(&'a self) -> &'a Point<T, D> {
-        match self {
-            Node::Stem { point, .. } => point,
-            _ => unreachable!("only to be used on stems"),
-        }
-    }
-
     // fn stem_position(&self) -> &'t [NotNan<T>; D] {
     //     match self {
     //         Node::Stem { split_dim: .. } => position,
diff --git a/src/query.rs b/src/query.rs
index db1b8d2..a6ee65e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -39,8 +39,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut points_to_check: Vec<(&usize, &Point<T, D>, T)> =
             Vec::with_capacity(self.height_hint);
 
-        let mut current_best_dist_sq = T::max_value();
-        let mut current_best_neighbor: &'q Point<T, D> = current_node.stem();
+        // The root may be a leaf, so start from an arbitrary point at infinite distance
+        let mut current_best_dist_sq = T::infinity();
+        let mut current_best_neighbor: &'q Point<T, D> = &self.data[0];
 
         // Recurse down (and then up and down) the stem
         self.check_stem(
diff --git a/src/query_k.rs b/src/query_k.rs
index ea50d65..275566d 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -52,9 +52,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut points_to_check: Vec<(&usize, &Point<T, D>, T)> =
             Vec::with_capacity(self.height_hint);
 
-        // Initialize candidate container with dummy point
+        // Initialize empty candidate container
         let mut container = Container::new(k.min(self.input.len()));
-        container.push((T::max_value(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -82,9 +81,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
 
-            // Initialize candidate container with dummy point
+            // Initialize empty candidate container
             let mut container = Container::new(k.min(self.input.len()));
-            container.push((T::max_value(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -134,7 +132,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                 })
                 .fold(T::zero(), |acc, x| acc + *x);
 
-            if dist_to_side_edge_or_other < *best_real_dist2 {
+            if dist_to_side_edge_or_other < best_real_dist2 {
                 let mut image_to_check = query.clone();
 
                 for (idx, flag) in closest_image.enumerate() {
@@ -269,7 +267,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                             unsafe { self.nodes.get_unchecked(*left) }.get_bounds();
                         let dist_sq_to_space =
                             calc_dist_sq_to_space(query, sibling_lower, sibling_upper);
-                        if dist_sq_to_space <= *container.best_dist2() {
+                        if dist_sq_to_space <= container.best_dist2() {
                             points_to_check.push((left, point, dist_sq_to_space));
                         }
 
@@ -282,7 +280,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                             unsafe { self.nodes.get_unchecked(*right) }.get_bounds();
                         let dist_sq_to_space =
                             calc_dist_sq_to_space(query, sibling_lower, sibling_upper);
-                        if dist_sq_to_space <= *container.best_dist2() {
+                        if dist_sq_to_space <= container.best_dist2() {
                             points_to_check.push((right, point, dist_sq_to_space));
                         }
 
@@ -303,7 +301,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            let better_dist2 = dist_sq_to_space < container.best_dist2();
             if better_dist2 {
                 self.check_child_k(query, sibling, parent, container, points_to_check);
             }
diff --git a/src/query_k/container.rs b/src/query_k/container.rs
index 1e98e19..d4bece6 100644
--- a/src/query_k/container.rs
+++ b/src/query_k/container.rs
@@ -48,8 +48,12 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
     }
 
     // Euclidean needs access to this one
-    pub(crate) fn best_dist2(&self) -> &T {
-        &self.items.peek().unwrap().0 .0
+    // Until there are k candidates, anything is good enough
+    pub(crate) fn best_dist2(&self) -> T {
+        match self.items.peek() {
+            Some(candidate) if self.items.len() >= self.k_or_datalen => candidate.0 .0,
+            _ => T::infinity(),
+        }
     }
 
     #[allow(unused_mut)] // if sqrt-dist2 is on, mut is not used
diff --git a/src/query_k/container_axis.rs b/src/query_k/container_axis.rs
index 2dc22ad..23a5eb6 100644
--- a/src/query_k/container_axis.rs
+++ b/src/query_k/container_axis.rs
@@ -49,8 +49,12 @@ impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
 
     // Euclidean needs access to this one
     // Note this is best kth, not best 1NN
-    pub(crate) fn best_dist2(&self) -> &T {
-        &self.items.peek().unwrap().0 .0 .0
+    // Until there are k candidates, anything is good enough
+    pub(crate) fn best_dist2(&self) -> T {
+        match self.items.peek() {
+            Some(candidate) if self.items.len() >= self.k_or_datalen => candidate.0 .0 .0,
+            _ => T::infinity(),
+        }
     }
 
     // #[allow(unused_mut)] // if sqrt-dist2 is on, mut is not used
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 25bb3e5..5ee92d5 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -107,7 +107,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -133,7 +132,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
@@ -183,7 +181,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                 })
                 .fold(T::zero(), |acc, x| acc + *x);
 
-            if dist_to_side_edge_or_other < *best_real_dist2 {
+            if dist_to_side_edge_or_other < best_real_dist2 {
                 let mut image_to_check = query.clone();
 
                 for (idx, flag) in closest_image.enumerate() {
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 781ff13..dfa4216 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -124,10 +124,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((
-            (T::max_value(), T::max_value(), T::max_value()),
-            current_node.stem(),
-        ));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k_axis(query, current_node, container, points_to_check, axis);
@@ -164,10 +160,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut real_image_container: &mut ContainerAxis<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((
-                (T::max_value(), T::max_value(), T::max_value()),
-                current_node.stem(),
-            ));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k_axis(query, current_node, container, points_to_check, axis);
@@ -217,7 +209,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                 })
                 .fold(T::zero(), |acc, x| acc + *x);
 
-            if dist_to_side_edge_or_other < *best_real_dist2 {
+            if dist_to_side_edge_or_other < best_real_dist2 {
                 let mut image_to_check = query.clone();
 
                 for (idx, flag) in closest_image.enumerate() {
@@ -395,7 +387,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            let better_dist2 = dist_sq_to_space < container.best_dist2();
             if better_dist2 {
                 self.check_child_k_axis(query, sibling, parent, container, points_to_check, axis);
             }
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 4822629..7e55aef 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -122,7 +122,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -148,7 +147,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
@@ -198,7 +196,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                 })
                 .fold(T::zero(), |acc, x| acc + *x);
 
-            if dist_to_side_edge_or_other < *best_real_dist2 {
+            if dist_to_side_edge_or_other < best_real_dist2 {
                 let mut image_to_check = query.clone();
 
                 for (idx, flag) in closest_image.enumerate() {
-- 
2.43.0


From 20cb0bc0fd6ff5bf52efa0b1cee438ac15bac937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 02/16] fix: return no neighbors for k = 0 instead of writing
 through an empty heap

With k = 0 the candidate container replaced the top of an empty heap with
unwrap_unchecked, which is undefined behaviour.
---
 src/query_k/container.rs      | 2 ++
 src/query_k/container_axis.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/query_k/container.rs b/src/query_k/container.rs
index d4bece6..d64cc53 100644
--- a/src/query_k/container.rs
+++ b/src/query_k/container.rs
@@ -52,6 +52,8 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
     pub(crate) fn best_dist2(&self) -> T {
         match self.items.peek() {
             Some(candidate) if self.items.len() >= self.k_or_datalen => candidate.0 .0,
+            // With k = 0 there is nothing to look for
+            None if self.k_or_datalen == 0 => T::neg_infinity(),
             _ => T::infinity(),
         }
     }
diff --git a/src/query_k/container_axis.rs b/src/query_k/container_axis.rs
index 23a5eb6..8c2e6a1 100644
--- a/src/query_k/container_axis.rs
+++ b/src/query_k/container_axis.rs
@@ -53,6 +53,8 @@ impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
     pub(crate) fn best_dist2(&self) -> T {
         match self.items.peek() {
             Some(candidate) if self.items.len() >= self.k_or_datalen => candidate.0 .0 .0,
+            // With k = 0 there is nothing to look for
+            None if self.k_or_datalen == 0 => T::neg_infinity(),
             _ => T::infinity(),
         }
     }
-- 
2.43.0


From 2a5e814421c99b497f2eede4f65b03a92114b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 03/16] fix: keep searching until k candidates are found when
 distances overflow

When squared distances overflow to infinity every sibling was pruned before k
candidates had been found, and the result vectors exposed uninitialised memory.
---
 src/query_k.rs                | 3 +--
 src/query_k/container.rs      | 6 ++++++
 src/query_k/container_axis.rs | 6 ++++++
 src/query_k/parallel_axis.rs  | 3 +--
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/query_k.rs b/src/query_k.rs
index 275566d..339d0fa 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -301,8 +301,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < container.best_dist2();
-            if better_dist2 {
+            if container.may_improve(dist_sq_to_space) {
                 self.check_child_k(query, sibling, parent, container, points_to_check);
             }
         }
diff --git a/src/query_k/container.rs b/src/query_k/container.rs
index d64cc53..89dbbec 100644
--- a/src/query_k/container.rs
+++ b/src/query_k/container.rs
@@ -48,6 +48,12 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
     }
 
     // Euclidean needs access to this one
+    // Whether a space at this distance may still hold one of the k best. A space at infinite
+    // distance (squared distances can overflow) may, as long as there are less than k candidates
+    pub(crate) fn may_improve(&self, dist2_to_space: T) -> bool {
+        self.items.len() < self.k_or_datalen || dist2_to_space < self.best_dist2()
+    }
+
     // Until there are k candidates, anything is good enough
     pub(crate) fn best_dist2(&self) -> T {
         match self.items.peek() {
diff --git a/src/query_k/container_axis.rs b/src/query_k/container_axis.rs
index 8c2e6a1..8197bfb 100644
--- a/src/query_k/container_axis.rs
+++ b/src/query_k/container_axis.rs
@@ -49,6 +49,12 @@ impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
 
     // Euclidean needs access to this one
     // Note this is best kth, not best 1NN
+    // Whether a space at this distance may still hold one of the k best. A space at infinite
+    // distance (squared distances can overflow) may, as long as there are less than k candidates
+    pub(crate) fn may_improve(&self, dist2_to_space: T) -> bool {
+        self.items.len() < self.k_or_datalen || dist2_to_space < self.best_dist2()
+    }
+
     // Until there are k candidates, anything is good enough
     pub(crate) fn best_dist2(&self) -> T {
         match self.items.peek() {
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index dfa4216..02661cc 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -387,8 +387,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < container.best_dist2();
-            if better_dist2 {
+            if container.may_improve(dist_sq_to_space) {
                 self.check_child_k_axis(query, sibling, parent, container, points_to_check, axis);
             }
         }
-- 
2.43.0


From dfbb1edc7ab57c80061b6e25639eb49fb1b835c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 04/16] fix: return min(k, data points) neighbors per query
 from the batch queries

With k larger than the number of data points the batch queries returned rows
of k entries of which only the first ones had been written, exposing
uninitialised memory. The single query already returns min(k, data points).
---
 src/query_k/parallel.rs      | 3 +++
 src/query_k/parallel_axis.rs | 3 +++
 src/query_k/parallel_with.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 5ee92d5..121c06b 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -22,6 +22,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are no more neighbors than data points
+        let k = k.min(self.data.len());
+
         let mut distances = Vec::with_capacity(queries.len() * k);
         let mut indices = Vec::with_capacity(queries.len() * k);
         let dist_ptr_usize = distances.as_mut_ptr() as usize;
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 02661cc..f7ac95c 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -26,6 +26,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // There are no more neighbors than data points
+        let k = k.min(self.data.len());
+
         let mut axes = Vec::with_capacity(queries.len() * k);
         let mut nonaxes = Vec::with_capacity(queries.len() * k);
         #[cfg(not(feature = "no-index"))]
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 7e55aef..642122d 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -23,6 +23,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are no more neighbors than data points
+        let k = k.min(self.data.len());
+
         let mut distances = Vec::with_capacity(queries.len() * k);
         let mut indices = Vec::with_capacity(queries.len() * k);
         let dist_ptr_usize = distances.as_mut_ptr() as usize;
-- 
2.43.0


From 25bf52aa5925ca4ab7cb70c83c10bf480eb6442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 05/16] fix: allocate scratch containers for the threads of the
 current pool only

query_nearest_k_parallel_with allocated containers of capacity k for rayon's
theoretical maximum of 65535 threads, which for large k exhausts the address
space.
---
 src/query_k/parallel_with.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 642122d..206d802 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -31,7 +31,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let dist_ptr_usize = distances.as_mut_ptr() as usize;
         let idx_ptr_usize = indices.as_mut_ptr() as usize;
 
-        let tx_rx_vec: Vec<_> = (0..rayon::max_num_threads())
+        let tx_rx_vec: Vec<_> = (0..rayon::current_num_threads())
             .map(|_| SyncUnsafeCell::new((Container::new(k), Vec::with_capacity(self.height_hint))))
             .collect();
 
-- 
2.43.0


From cf30811a1a8a9c5b08c5f6cda77bf0de9b1e3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 06/16] fix: visit siblings in a loop, so the stack does not
 grow with every stem

check_stem emptied the ledger by calling itself for every sibling that is a
stem, nested in the previous call. Queries that have to visit most of a large
tree (k close to the number of points, equidistant points) overflowed the stack.
---
 src/query.rs                 | 28 +++++++++++++++++++++++++---
 src/query_k.rs               | 21 ++++++++++++++++++---
 src/query_k/parallel_axis.rs | 22 +++++++++++++++++++---
 3 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index a6ee65e..0bc7d5c 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -207,7 +207,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent(query, stem, current_best_dist_sq, current_best_neighbor);
-                self.check_stem(
+                self.descend_stem(
                     query,
                     sibling,
                     current_best_dist_sq,
@@ -240,9 +240,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down. This only records the
+    /// siblings met on the way down, `check_stem` visits them: doing that here would
+    /// nest a call for every stem visited.
 
-    fn check_stem<'i, 'o>(
+    fn descend_stem<'i, 'o>(
         &'i self,
         query: &[NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -311,6 +313,26 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             current_best_dist_sq,
             current_best_neighbor,
         );
+    }
+
+    fn check_stem<'i, 'o>(
+        &'i self,
+        query: &[NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        current_best_dist_sq: &'o mut T,
+        current_best_neighbor: &'o mut &'i Point<T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem(
+            query,
+            stem,
+            current_best_dist_sq,
+            current_best_neighbor,
+            points_to_check,
+        );
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k.rs b/src/query_k.rs
index 339d0fa..2d9d139 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -213,7 +213,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k(query, stem, container);
-                self.check_stem_k(query, sibling, container, points_to_check)
+                self.descend_stem_k(query, sibling, container, points_to_check)
             }
         }
     }
@@ -233,9 +233,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down. This only records the
+    /// siblings met on the way down, `check_stem_k` visits them: doing that here would
+    /// nest a call for every stem visited.
 
-    fn check_stem_k<'i, 'o>(
+    fn descend_stem_k<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -298,6 +300,19 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k(query, current_node.iter(), container);
+    }
+
+    fn check_stem_k<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut Container<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k(query, stem, container, points_to_check);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index f7ac95c..cb14ae5 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -304,7 +304,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k_axis(query, stem, container, axis);
-                self.check_stem_k_axis(query, sibling, container, points_to_check, axis)
+                self.descend_stem_k_axis(query, sibling, container, points_to_check, axis)
             }
         }
     }
@@ -325,9 +325,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down. This only records the
+    /// siblings met on the way down, `check_stem_k_axis` visits them: doing that here would
+    /// nest a call for every stem visited.
 
-    fn check_stem_k_axis<'i, 'o>(
+    fn descend_stem_k_axis<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -387,6 +389,20 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k_axis(query, current_node.iter(), container, axis);
+    }
+
+    fn check_stem_k_axis<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut ContainerAxis<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+        axis: usize,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k_axis(query, stem, container, points_to_check, axis);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-- 
2.43.0


From 3cc749040f8c107843c98dc913910e5a2e4bafc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:37 +0000
Subject: [PATCH 07/16] fix: split runs of equal components in the middle in
 moms_seq

For slices of at least 100000 points everything equal to the pivot went to its
right, so with many equal components the tree degenerated into a list and the
recursive build overflowed the stack.
---
 src/moms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/moms.rs b/src/moms.rs
index 90295f0..28ead3f 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -296,7 +296,10 @@ pub fn moms_seq<T: Float, const D: usize>(
         right_timer.elapsed().as_micros()
     );
 
-    let (left, remainder) = slice.split_at_mut(left);
+    // All of slice[left..left + equal] equals the pivot. Split there as close to the middle as
+    // possible, or data with many equal components gives a tree as deep as it has points.
+    let pivot_index = (slice.len() / 2).clamp(left, left + equal - 1);
+    let (left, remainder) = slice.split_at_mut(pivot_index);
     let (approx_median, right) = remainder.split_first_mut().unwrap();
 
     (left, approx_median, right)
-- 
2.43.0


From 07b309e11b2e4afd224a532be5c7cc56721c180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 08/16] fix: let size_of_tree account for every point, so that
 it does not underflow

The estimate subtracted one from half of the points on the left, which
underflowed for a single point (leafsize 0): a panic in debug builds, endless
recursion in release builds.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ee0df0..385d67a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -813,8 +813,9 @@ mod tests {
 
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
-        let left = datalen / 2 - 1;
-        let right = datalen / 2 - datalen % 2;
+        // One point is the split point
+        let left = datalen / 2;
+        let right = datalen - left - 1;
         1 + size_of_tree(left, leafsize) + size_of_tree(right, leafsize)
     } else if datalen == 0 {
         0
-- 
2.43.0


From 1cd7f1ffdceecd4bfd0780b4872bbc7b2df5e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 09/16] fix: check the data before building instead of while
 building

Both builders ran while the data was still being checked. Building with a NaN
component compares with unwrap_unchecked, which is undefined behaviour.
---
 src/lib.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 385d67a..00a7bd3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -138,10 +138,10 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         if input.len() == 0 {
             return Err(FnntwError::ZeroLengthInputData);
         }
-        // Perform checks for valid data
-        std::thread::scope(|s| {
-            let handle = s.spawn(|| check_data(input));
-
+        // Perform checks for valid data. The build relies on comparable components,
+        // so this must be done before it starts
+        check_data(input)?;
+        {
             // This is used to determine the size several allocations
             let data_len = input.len();
             let height_hint = data_len.ilog2() as usize;
@@ -239,9 +239,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             };
             let root_node = unsafe { nodes.pop().unwrap_unchecked() };
 
-            // Ensure we've checked data before returning
-            unsafe { handle.join().unwrap_unchecked()? };
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -254,7 +251,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 root_node,
                 boxsize: None,
             })
-        })
+        }
     }
 
     // A recursive private function.
@@ -459,10 +456,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         if input.len() == 0 {
             return Err(FnntwError::ZeroLengthInputData);
         }
-        std::thread::scope(|s| {
-            // SAFETY: the thread is joined within this
-            let handle = s.spawn(|| check_data(input));
-
+        // The build relies on comparable components, so this must be done before it starts
+        check_data(input)?;
+        {
             // This is used to determine the size several allocations
             let data_len = input.len();
             let height_hint = data_len.ilog2() as usize;
@@ -551,9 +547,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
             let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
 
-            // ensure we've checked data before returning
-            handle.join().unwrap()?;
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -566,7 +559,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 root_node,
                 boxsize: None,
             })
-        })
+        }
     }
 
     // A recursive private function.
-- 
2.43.0


From 69cc2de9996af1a5d9f805234c033a8ebf43c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 10/16] fix: raise ValueError from the Python classes when a
 build or query fails

Treef64 unwrapped build errors and both classes panicked on non-finite queries
for the single nearest neighbor, raising PanicException instead.
---
 pyfnntw/src/lib.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c7c9526..9bc0c12 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -226,10 +226,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 2] = boxsize.as_slice()?.try_into()?;
@@ -262,10 +261,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 3] = boxsize.as_slice()?.try_into()?;
@@ -483,17 +481,13 @@ macro_rules! tree_impl {
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
 
                     let kdtree = self.borrow_tree();
-                    let query_size = query.len();
-                    let mut distances = Vec::with_capacity(query_size);
-                    let mut indices = Vec::with_capacity(query_size);
-                    query
+                    let neighbors = query
                         .into_par_iter()
-                        .map_with(kdtree, |t, q| {
-                            t.query_nearest(q).expect("you likely have a nan")
-                        })
-                        .unzip_into_vecs(&mut distances, &mut indices);
+                        .map_with(kdtree, |t, q| t.query_nearest(q))
+                        .collect::<FnntwResult<Vec<_>, $float>>()
+                        .map_err(|e| PyValueError::new_err(format!("query failed {e}")))?;
 
-                    Ok((distances, indices))
+                    Ok(neighbors.into_iter().unzip())
                 }
 
                 fn query_k(
-- 
2.43.0


From 672febfc13c448b531e38d2ed84fd000cda8b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 11/16] fix: return min(k, rows) columns from the Python
 k-nearest queries

With k larger than the number of rows of the data k entries were copied from
results of fewer entries, reading out of bounds.
---
 pyfnntw/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 9bc0c12..8480869 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -137,7 +137,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.datalen());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -157,7 +157,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    let k = k.unwrap().min(slf.0.datalen());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -323,7 +323,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // }
 
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.datalen());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -343,7 +343,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    let k = k.unwrap().min(slf.0.datalen());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -450,6 +450,8 @@ struct Tree3<'a, T: Float> {
 // }
 
 trait FNTree<T: Float> {
+    /// The number of data points, there are no more neighbors than this
+    fn datalen(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k_axis(
@@ -464,6 +466,10 @@ macro_rules! tree_impl {
     ($float:ty, $dim:literal) => {
         concat_idents::concat_idents!(tree = Tree, $dim {
             impl<'a> FNTree<$float> for tree<'a, $float> {
+                fn datalen(&self) -> usize {
+                    self.borrow_data().len()
+                }
+
                 fn query(&self, query: ArrayView2<$float>) -> PyResult<(Vec<$float>, Vec<u64>)> {
                     // Check dimensions of data
                     let dims: [usize; 2] = query
-- 
2.43.0


From 81b82fabaac2f3cbaae0d93d6d3ce397f61d9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 12/16] fix: keep the data array alive for as long as the
 Python tree

The Python classes only kept a reference into the memory of the data array, so
querying a tree after the array had been collected was a use after free.
---
 pyfnntw/src/lib.rs | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 8480869..6c7d680 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -15,9 +15,17 @@ use rayon::prelude::*;
 #[pymodule]
 fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyclass]
-    struct Treef32(Box<dyn FNTree<f32> + Send + Sync + 'static>);
+    struct Treef32(
+        Box<dyn FNTree<f32> + Send + Sync + 'static>,
+        // The tree refers to the memory of this array
+        #[allow(unused)] Py<PyArray2<f32>>,
+    );
     #[pyclass]
-    struct Treef64(Box<dyn FNTree<f64> + Send + Sync + 'static>);
+    struct Treef64(
+        Box<dyn FNTree<f64> + Send + Sync + 'static>,
+        // The tree refers to the memory of this array
+        #[allow(unused)] Py<PyArray2<f64>>,
+    );
 
     #[pymethods]
     impl Treef32 {
@@ -45,6 +53,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // The tree refers to the data, so it must keep the array that owns it alive
+            let owner = data.to_owned();
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -54,9 +65,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and the array is stored along with the tree, so the reference will
+                    // remain valid for as long as the tree.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
                             data.as_array().as_slice().unwrap(),
@@ -86,12 +96,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and the array is stored along with the tree, so the reference will
+                    // remain valid for as long as the tree.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
                             data.as_array().as_slice().unwrap(),
@@ -120,7 +129,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         }
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
@@ -200,6 +209,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // The tree refers to the data, so it must keep the array that owns it alive
+            let owner = data.to_owned();
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -209,9 +221,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and the array is stored along with the tree, so the reference will
+                    // remain valid for as long as the tree.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
                             data.as_array().as_slice().unwrap(),
@@ -241,12 +252,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and the array is stored along with the tree, so the reference will
+                    // remain valid for as long as the tree.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
                             data.as_array().as_slice().unwrap(),
@@ -276,7 +286,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
-- 
2.43.0


From 84dd198e5495c8158b4edf688cb0e58c3a12040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 13/16] fix: raise ValueError for arrays that are not
 C-contiguous

The Python classes unwrapped the missing slice, raising PanicException.
---
 pyfnntw/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 6c7d680..abe5a57 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -69,7 +69,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // remain valid for as long as the tree.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -103,7 +103,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // remain valid for as long as the tree.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -225,7 +225,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // remain valid for as long as the tree.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -259,7 +259,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // remain valid for as long as the tree.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -459,6 +459,10 @@ struct Tree3<'a, T: Float> {
 //     }
 // }
 
+fn not_contiguous() -> PyErr {
+    PyValueError::new_err("array must be C-contiguous")
+}
+
 trait FNTree<T: Float> {
     /// The number of data points, there are no more neighbors than this
     fn datalen(&self) -> usize;
@@ -494,7 +498,7 @@ macro_rules! tree_impl {
                         ));
                     }
 
-                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
+                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().ok_or_else(not_contiguous)?);
 
                     let kdtree = self.borrow_tree();
                     let neighbors = query
@@ -526,7 +530,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     {
@@ -607,7 +611,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     self.borrow_tree().query_nearest_k_parallel_axis(query, k, axis).map_err(|e| {
-- 
2.43.0


From d25adf2f24a02fbe14dcc5dbef6a0265603ade52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 14/16] fix: let query_nearest_k_parallel_with answer a single
 query from outside a pool

rayon runs a batch of one query on the calling thread, which has no index when
it does not belong to a pool, so that unwrapping the index panicked.
---
 src/query_k/parallel_with.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 206d802..848f081 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -47,9 +47,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
-                    // Get pre-allocated buffers if available
-                    let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                    // Get pre-allocated buffers if available. A single query that is issued from
+                    // outside of a pool is not split, and runs on the calling thread alone
+                    let (ref mut container, ref mut point_vec) = unsafe {
+                        &mut *tx_rx_vec[rayon::current_thread_index().unwrap_or(0)].get()
+                    };
 
                     // Periodic query
                     self.query_nearest_k_periodic_into_with(
@@ -77,8 +79,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
                     // Get pre-allocated buffers if available
                     // let (ref tx, ref rx) = tx_rx_vec[rayon::current_thread_index().unwrap() / 4];
-                    let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                    let (ref mut container, ref mut point_vec) = unsafe {
+                        &mut *tx_rx_vec[rayon::current_thread_index().unwrap_or(0)].get()
+                    };
                     // let (mut container, mut point_vec) = rx.try_recv().unwrap_or_else(|_| {
                     //     (Container::new(k), Vec::with_capacity(self.height_hint))
                     // });
-- 
2.43.0


From 2a0cb110911f2464dca9ab74e0ebc7a9dff37925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 15/16] fix: treat negative zero as zero in periodic trees

with_boxsize rejected data with a coordinate of -0.0 as negative, and in debug
builds a query with a coordinate of -0.0 panicked.
---
 src/lib.rs                   | 2 +-
 src/query.rs                 | 6 +++---
 src/query_k.rs               | 6 +++---
 src/query_k/parallel.rs      | 6 +++---
 src/query_k/parallel_axis.rs | 6 +++---
 src/query_k/parallel_with.rs | 6 +++---
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 00a7bd3..9e29fdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -731,7 +731,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
         // Check that the data bounding box is in R_+^n
         for component in lower {
-            if component.is_sign_negative() {
+            if **component < T::zero() {
                 return Err(FnntwError::NegativeDataPeriodicQuery);
             } else if component.is_infinite() || component.is_nan() {
                 return Err(FnntwError::InvalidBoxsize);
diff --git a/src/query.rs b/src/query.rs
index 0bc7d5c..03eea06 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -82,9 +82,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe with const gneric
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // Zero may carry either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k.rs b/src/query_k.rs
index 2d9d139..dd49afe 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -101,9 +101,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // Zero may carry either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 121c06b..504b28e 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -153,9 +153,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // Zero may carry either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index cb14ae5..aa949d5 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -181,9 +181,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // Zero may carry either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 848f081..13bc146 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -171,9 +171,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // Zero may carry either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
-- 
2.43.0


From ebbada00324b6c3179d93b5e22129371c429fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 16/16] fix: bound the threads of a parallel build

Every split above par_split_level takes one more thread while its children
are built. A large data set built with a small leaf size and a deep level
asked for tens of thousands of live threads, more than the operating
system provides, and the build panicked.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9e29fdc..0a51d29 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,6 +42,11 @@ const NOT_FIRST: bool = false;
 const IS_LEFT: bool = true;
 const IS_RIGHT: bool = false;
 
+/// Deepest split level that still adds threads to a parallel build. Every split above the split
+/// level takes one thread more, so without a bound a large data set exhausts the threads that
+/// the operating system provides, and the build panics.
+const MAX_PAR_SPLIT_LEVEL: usize = 10;
+
 /// This [`Tree`] struct is the core struct that holds all nodes in the kdtree.
 pub struct Tree<'t, T: Float, const D: usize> {
     /// Data in the tree. Here for user reference mainly. For example,
@@ -170,7 +175,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 Arc::clone(&nodes),
                 None,
                 None,
-                par_split_level,
+                par_split_level.min(MAX_PAR_SPLIT_LEVEL),
             );
 
             #[cfg(feature = "timing")]
-- 
2.43.0


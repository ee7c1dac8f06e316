From 14917d5855328663176ce2e6cab96138d17565bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 01/15] verif: guarded entry points for external harnesses
 (--cfg auto_palette_verif)

---
 src/lib.rs                              |   2 +
 src/math/clustering/hdbscan/mod.rs      |   3 +
 src/math/clustering/hierarchical/mod.rs |   5 +
 src/verif.rs                            | 134 ++++++++++++++++++++++++
 4 files changed, 144 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index b005593..be35448 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,5 @@ mod color;
 pub mod image;
 mod math;
 pub mod swatch;
+#[cfg(auto_palette_verif)]
+pub mod verif;
diff --git a/src/math/clustering/hdbscan/mod.rs b/src/math/clustering/hdbscan/mod.rs
index 0f565bc..25acebd 100644
--- a/src/math/clustering/hdbscan/mod.rs
+++ b/src/math/clustering/hdbscan/mod.rs
@@ -1,3 +1,6 @@
 pub(crate) mod algorithm;
 mod core_distance;
 pub(crate) mod params;
+
+#[cfg(auto_palette_verif)]
+pub(crate) use core_distance::CoreDistance;
diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 868c28e..5869252 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -1,3 +1,8 @@
 mod algorithm;
 mod node;
 mod union_find;
+
+#[cfg(auto_palette_verif)]
+pub use algorithm::HierarchicalClustering;
+#[cfg(auto_palette_verif)]
+pub use union_find::UnionFind;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..cb0ac0a
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,134 @@
+//! Entry points for the external verification harnesses.
+//!
+//! Compiled only with `--cfg auto_palette_verif`; it adds no behaviour and only makes crate-private
+//! items reachable from a harness crate.
+#![allow(missing_docs)]
+
+use crate::math::clustering::hdbscan::CoreDistance;
+use crate::math::clustering::kmeans::algorithm::Kmeans;
+use crate::math::clustering::kmeans::init::Initializer;
+use crate::math::clustering::kmeans::params::KmeansParams;
+use crate::math::clustering::traits::Fit;
+use crate::math::neighbors::kdtree::KDTree;
+use crate::math::neighbors::linear::LinearSearch;
+use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
+use rand::Rng;
+
+pub use crate::color::lab::Lab;
+pub use crate::color::rgba::Rgba;
+pub use crate::color::white_point::{WhitePoint, D65};
+pub use crate::color::xyz::XYZ;
+pub use crate::math::clustering::dbscan::algorithm::DBSCAN;
+pub use crate::math::clustering::dbscan::params::Params as DbscanParams;
+pub use crate::math::clustering::hierarchical::{HierarchicalClustering, UnionFind};
+pub use crate::math::distance::metric::DistanceMetric;
+pub use crate::math::graph::edge::{Edge, WeightedEdge};
+pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+pub use crate::math::number::{Clamp, Float, Number};
+pub use crate::math::point::{Point, Point2, Point3, Point5};
+
+fn pairs<F: Float>(neighbors: Vec<Neighbor<F>>) -> Vec<(usize, F)> {
+    neighbors
+        .into_iter()
+        .map(|neighbor| (neighbor.index, neighbor.distance))
+        .collect()
+}
+
+/// The operations of a neighbor search.
+#[derive(Debug, Clone, Copy, PartialEq)]
+pub enum Query<F> {
+    Nearest,
+    K(usize),
+    Radius(F),
+}
+
+fn run<F: Float, P: Point<F>, N: NeighborSearch<F, P>>(
+    search: &N,
+    point: &P,
+    query: Query<F>,
+) -> Vec<(usize, F)> {
+    match query {
+        Query::Nearest => pairs(search.search_nearest(point).into_iter().collect()),
+        Query::K(k) => pairs(search.search(point, k)),
+        Query::Radius(radius) => pairs(search.search_radius(point, radius)),
+    }
+}
+
+pub fn kdtree_query<F: Float, P: Point<F>>(
+    dataset: &Vec<P>,
+    metric: DistanceMetric,
+    point: &P,
+    query: Query<F>,
+) -> Vec<(usize, F)> {
+    run(&KDTree::new(dataset, &metric), point, query)
+}
+
+pub fn linear_query<F: Float, P: Point<F>>(
+    dataset: &Vec<P>,
+    metric: DistanceMetric,
+    point: &P,
+    query: Query<F>,
+) -> Vec<(usize, F)> {
+    run(&LinearSearch::new(dataset, metric), point, query)
+}
+
+pub fn dbscan_fit<F: Float, P: Point<F>>(dataset: &[P], params: &DbscanParams<F>) -> DBSCAN<F, P> {
+    DBSCAN::fit(dataset, params)
+}
+
+pub fn core_distances<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_samples: usize,
+    metric: DistanceMetric,
+) -> Vec<F> {
+    let core_distance = CoreDistance::new(dataset, min_samples, &metric);
+    (0..dataset.len())
+        .map(|index| core_distance.distance_at(index))
+        .collect()
+}
+
+/// The initialization methods of k-means.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Init {
+    Random,
+    KmeansPlusPlus,
+}
+
+fn initializer<R: Rng + Clone>(init: Init, rng: R) -> Initializer<R> {
+    match init {
+        Init::Random => Initializer::Random(rng),
+        Init::KmeansPlusPlus => Initializer::KmeansPlusPlus(rng),
+    }
+}
+
+pub fn kmeans_initialize<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    k: usize,
+    metric: DistanceMetric,
+    init: Init,
+    rng: R,
+) -> Vec<P> {
+    initializer(init, rng).initialize(dataset, k, &metric)
+}
+
+/// Run k-means, and return the centroid and the size of each cluster.
+pub fn kmeans_fit<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    k: usize,
+    max_iterations: usize,
+    tolerance: F,
+    metric: DistanceMetric,
+    init: Init,
+    rng: R,
+) -> Vec<(P, usize)> {
+    let params = KmeansParams::new(k, metric, initializer(init, rng))
+        .with_max_iterations(max_iterations)
+        .with_tolerance(tolerance);
+    let kmeans = Kmeans::fit(dataset, &params);
+    kmeans
+        .centroids()
+        .into_iter()
+        .enumerate()
+        .map(|(index, centroid)| (centroid, kmeans.count_at(index)))
+        .collect()
+}
-- 
2.43.0


From b05fa22f7f7f91179149165dd0b916d6ea437620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 02/15] fix: prune the k-nearest-neighbor search by the k-th
 best distance

The search pruned subtrees by the nearest distance found so far instead of
the k-th nearest one, so that it missed neighbors for k > 1.
---
 src/math/neighbors/kdtree/mod.rs | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..2d0ac51 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -48,6 +48,7 @@ where
         query: &P,
         k: usize,
         heap: &mut BinaryHeap<Element<F>>,
+        nearest_distances: &mut Vec<F>,
     ) {
         let Some(node) = root else {
             return;
@@ -55,11 +56,14 @@ where
 
         let index = node.index();
         let point = self.dataset[index];
-        let element = {
-            let distance = self.metric.measure(&point, query);
-            Element::new(index, distance)
-        };
-        heap.push(element);
+        let distance = self.metric.measure(&point, query);
+        heap.push(Element::new(index, distance));
+        // Keep the k smallest distances found so far in ascending order.
+        let position = nearest_distances.partition_point(|other| *other <= distance);
+        if position < k {
+            nearest_distances.insert(position, distance);
+            nearest_distances.truncate(k);
+        }
         if node.is_leaf() {
             return;
         }
@@ -68,14 +72,15 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
-            self.search_recursively(node.left(), query, k, heap);
-            self.search_recursively(node.right(), query, k, heap);
+        let is_full = nearest_distances.len() >= k;
+        let furthest = nearest_distances.last().copied().unwrap_or(F::zero());
+        if !is_full || delta.abs() <= furthest {
+            self.search_recursively(node.left(), query, k, heap, nearest_distances);
+            self.search_recursively(node.right(), query, k, heap, nearest_distances);
         } else if delta < F::zero() {
-            self.search_recursively(node.left(), query, k, heap);
+            self.search_recursively(node.left(), query, k, heap, nearest_distances);
         } else {
-            self.search_recursively(node.right(), query, k, heap);
+            self.search_recursively(node.right(), query, k, heap, nearest_distances);
         }
     }
 
@@ -147,7 +152,14 @@ where
         }
 
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
-        self.search_recursively(self.root.as_ref(), query, k, &mut heap);
+        let mut nearest_distances = Vec::new();
+        self.search_recursively(
+            self.root.as_ref(),
+            query,
+            k,
+            &mut heap,
+            &mut nearest_distances,
+        );
 
         let mut neighbors = Vec::with_capacity(k);
         while let Some(element) = heap.pop() {
-- 
2.43.0


From 916530fc17cec05a9b60d7ed6b809fe8c71fe4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 03/15] fix: compare squared distances with the squared
 distance to the splitting plane

With the squared euclidean metric the KDTree compared the unsquared distance
to the splitting plane with squared distances, and missed neighbors whenever
the distances are below 1.
---
 src/math/neighbors/kdtree/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 2d0ac51..8ed0a90 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -42,6 +42,14 @@ where
         }
     }
 
+    /// Measure the distance to the splitting plane in the same unit as the metric.
+    fn measure_axis(&self, delta: F) -> F {
+        match self.metric {
+            DistanceMetric::Euclidean => delta.abs(),
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
+
     fn search_recursively(
         &self,
         root: Option<&Box<Node>>,
@@ -74,7 +82,7 @@ where
         };
         let is_full = nearest_distances.len() >= k;
         let furthest = nearest_distances.last().copied().unwrap_or(F::zero());
-        if !is_full || delta.abs() <= furthest {
+        if !is_full || self.measure_axis(delta) <= furthest {
             self.search_recursively(node.left(), query, k, heap, nearest_distances);
             self.search_recursively(node.right(), query, k, heap, nearest_distances);
         } else if delta < F::zero() {
@@ -106,7 +114,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.measure_axis(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
-- 
2.43.0


From 25d4b65eff318971243a662d92ae53f17da355b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 04/15] fix: do not reserve memory for more neighbors than
 there are points

Asking for a huge number of neighbors panicked with a capacity overflow.
---
 src/math/neighbors/kdtree/mod.rs | 2 +-
 src/math/neighbors/linear.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 8ed0a90..4cbf224 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -169,7 +169,7 @@ where
             &mut nearest_distances,
         );
 
-        let mut neighbors = Vec::with_capacity(k);
+        let mut neighbors = Vec::with_capacity(k.min(heap.len()));
         while let Some(element) = heap.pop() {
             neighbors.push(Neighbor::new(element.index(), element.distance()));
             if neighbors.len() == k {
diff --git a/src/math/neighbors/linear.rs b/src/math/neighbors/linear.rs
index b8bbc9c..38e3e92 100644
--- a/src/math/neighbors/linear.rs
+++ b/src/math/neighbors/linear.rs
@@ -52,7 +52,7 @@ where
             neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
         });
 
-        let mut results = Vec::with_capacity(k);
+        let mut results = Vec::with_capacity(k.min(neighbors.len()));
         results.extend(neighbors.into_iter().take(k));
         results
     }
-- 
2.43.0


From c9ce609b7dea7b8adb7dbf612381eeed52cfa16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 05/15] verif: expose the merges of a hierarchy (--cfg
 auto_palette_verif)

---
 src/math/clustering/hierarchical/algorithm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index fa0ea5e..b5b1a45 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -117,6 +117,20 @@ where
     }
 }
 
+#[cfg(auto_palette_verif)]
+impl<F> HierarchicalClustering<F>
+where
+    F: Float,
+{
+    /// Return the left child, the right child, the weight and the size of each merge.
+    pub fn merges(&self) -> Vec<(usize, usize, F, usize)> {
+        self.hierarchy
+            .iter()
+            .map(|node| (node.left, node.right, node.weight, node.size))
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From a1cc6c1033238a8ed03fc02439d1e3ab2eff25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 06/15] fix: list the centroids of DBSCAN in the order of their
 cluster IDs

---
 src/math/clustering/dbscan/algorithm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..f558df4 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -5,7 +5,7 @@ use crate::math::neighbors::kdtree::KDTree;
 use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
 use crate::math::number::Float;
 use crate::math::point::Point;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::marker::PhantomData;
 
 /// DBSCAN clustering algorithm.
@@ -16,7 +16,7 @@ where
     P: Point<F>,
 {
     _t: PhantomData<F>,
-    centroids: HashMap<usize, P>,
+    centroids: BTreeMap<usize, P>,
     membership: HashMap<usize, Vec<usize>>,
     outliers: Vec<usize>,
 }
@@ -103,7 +103,7 @@ where
         if dataset.is_empty() {
             return DBSCAN {
                 _t: PhantomData::default(),
-                centroids: HashMap::new(),
+                centroids: BTreeMap::new(),
                 membership: HashMap::new(),
                 outliers: Vec::new(),
             };
@@ -131,7 +131,7 @@ where
             cluster_id += 1;
         }
 
-        let mut centroids: HashMap<usize, P> = HashMap::new();
+        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();
         let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();
         let mut outliers: Vec<usize> = Vec::new();
         for (index, label) in labels.into_iter().enumerate() {
-- 
2.43.0


From 97f90cce9103a2130aea1b93797d315090b18156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 07/15] fix: saturate colors outside the sRGB gamut instead of
 panicking

---
 src/color/rgba.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..75f54ec 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,10 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        value
+            .clamp(F::zero(), Self::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From f9693be0f1fae577a1fcbb7e1fde32fe405e666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 08/15] fix: mark the selected points of k-means in place

---
 src/math/clustering/kmeans/init.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..427103e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,7 +69,7 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
@@ -93,7 +93,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From ab72796367c68a1bf8d450a6305a7067247f7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 09/15] fix: do not select a point twice in k-means++ when all
 points coincide

---
 src/math/clustering/kmeans/init.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 427103e..aac231e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -75,11 +75,8 @@ where
             let furthest = dataset
                 .iter()
                 .enumerate()
+                .filter(|(index, _)| !selected[*index])
                 .map(|(index, point)| -> (usize, F) {
-                    if selected[index] {
-                        return (index, F::zero());
-                    }
-
                     let min_distance = centroids
                         .iter()
                         .map(|centroid| metric.measure(point, centroid))
-- 
2.43.0


From 73e21accd31ce368bab271add29c6bac34b09d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 10/15] fix: do not count the point of a single-point k-means
 cluster twice

---
 src/math/clustering/kmeans/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..667879d 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -97,7 +97,7 @@ where
                 .iter()
                 .enumerate()
                 .map(|(index, data)| {
-                    let mut cluster = Cluster::new(data);
+                    let mut cluster = Cluster::new(&P::zero());
                     cluster.insert(index, data);
                     cluster
                 })
-- 
2.43.0


From 6d3a8f0d474ccf88d814fc6b2447c4d22bcc8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 11/15] fix: stop k-means when all centroids have converged,
 not any

---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 667879d..3afefa8 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -70,8 +70,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if difference >= tolerance {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From 9d928bd0c32da53dd254e7b69974077595ab4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 12/15] fix: keep the centroid of a k-means cluster that has
 lost its points

---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 3afefa8..bfa18be 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -64,6 +64,7 @@ where
             .zip(centroids)
             .for_each(|(cluster, old_centroid)| {
                 if cluster.is_empty() {
+                    *cluster = Cluster::new(&old_centroid);
                     return;
                 }
 
-- 
2.43.0


From e1c47f887091897a115b257aa29fefc42b35e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 13/15] fix: return no labels for the hierarchy of an empty
 dataset

---
 src/math/clustering/hierarchical/algorithm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index b5b1a45..648dd6c 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -10,6 +10,7 @@ use std::collections::{BinaryHeap, VecDeque};
 #[derive(Debug, PartialEq)]
 pub struct HierarchicalClustering<F: Float> {
     hierarchy: Vec<Node<F>>,
+    n_data: usize,
 }
 
 impl<F> HierarchicalClustering<F>
@@ -24,6 +25,7 @@ where
         if dataset.is_empty() {
             return Self {
                 hierarchy: Vec::new(),
+                n_data: 0,
             };
         }
 
@@ -53,13 +55,16 @@ where
                 }
             })
             .collect();
-        Self { hierarchy: nodes }
+        Self {
+            hierarchy: nodes,
+            n_data: dataset.len(),
+        }
     }
 
     #[must_use]
     pub fn partition(&self, k: usize) -> Vec<usize> {
         let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         assert!(k <= n_data);
 
         let mut labels = vec![0; n_data];
-- 
2.43.0


From d8988fb91687eae65d9c0832c0b0d2e0e640d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 14/15] fix: order swatches consistently with their equality

---
 src/swatch.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/swatch.rs b/src/swatch.rs
index d577134..d5882d6 100644
--- a/src/swatch.rs
+++ b/src/swatch.rs
@@ -21,7 +21,13 @@ where
     F: Float,
 {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.percentage.partial_cmp(&other.percentage)
+        self.percentage
+            .partial_cmp(&other.percentage)
+            .map(|ordering| {
+                ordering
+                    .then_with(|| self.color.cmp(&other.color))
+                    .then_with(|| self.position.cmp(&other.position))
+            })
     }
 }
 
@@ -30,8 +36,6 @@ where
     F: Float,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.percentage
-            .partial_cmp(&other.percentage)
-            .unwrap_or(Ordering::Equal)
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
-- 
2.43.0


From e0d9685f89d98a06a05de3c59344a024da901b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:59 +0000
Subject: [PATCH 15/15] fix: refuse unsigned conversions that do not fit
 instead of wrapping

---
 src/math/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/number.rs b/src/math/number.rs
index 41e742f..e982f5b 100644
--- a/src/math/number.rs
+++ b/src/math/number.rs
@@ -80,17 +80,17 @@ macro_rules! impl_number {
 
             #[inline]
             fn from_u32(n: u32) -> Self {
-                n as $number
+                num_traits::cast(n).expect("The number could not be represented")
             }
 
             #[inline]
             fn from_u64(n: u64) -> Self {
-                n as $number
+                num_traits::cast(n).expect("The number could not be represented")
             }
 
             #[inline]
             fn from_usize(n: usize) -> Self {
-                n as $number
+                num_traits::cast(n).expect("The number could not be represented")
             }
         }
     };
-- 
2.43.0


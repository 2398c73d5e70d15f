From b9b7d2118c53891b8c23a79b4cb1bb550a393d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:35 +0000
Subject: [PATCH 1/8] fix: keep leaf weights inside inherited monotonicity
 bounds below unconstrained splits

constrained_weight only applied the bounds when the feature being split was itself
constrained, so a split on an unconstrained feature below a constrained one could
produce leaf weights that break the requested monotonicity.
---
 src/utils.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..6ba5edc 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -120,20 +120,17 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
+    _constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    // The bounds are inherited from the constrained splits above this node, so
+    // they have to hold even if this split is on an unconstrained feature.
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From de5c322568b8f273427646c3f4dfd23bbb7140be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:35 +0000
Subject: [PATCH 2/8] fix: count both leaves added by a split with a missing
 branch against max_leaves

new_leaves_added was an inherent method, so the trait default (1) was used while
growing and a tree with missing branches could end up with max_leaves + 1 leaves.
---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..b54a76c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From 50a9585558d87b573d99350e9146a7fa2b0d80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:35 +0000
Subject: [PATCH 3/8] fix: compare the last record when pivoting the index on a
 split

When every record (or a single record) belongs below the split value the pivot
returned one record short; an empty index panicked and an all missing index was
not partitioned at all.
---
 src/utils.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6ba5edc..21cce75 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -417,6 +417,9 @@ pub fn pivot_on_split(
     missing_right: bool,
 ) -> usize {
     // I think we can do this in O(n) time...
+    if index.is_empty() {
+        return 0;
+    }
     let mut low = 0;
     let mut high = index.len() - 1;
     let max_idx = high;
@@ -445,6 +448,13 @@ pub fn pivot_on_split(
             index.swap(high, low);
         }
     }
+    // If we ran all the way to the last record, it has not been compared yet.
+    if low == max_idx {
+        let l = feature[index[low]];
+        if let Ordering::Greater = missing_compare(&split_value, l, missing_right) {
+            low += 1;
+        }
+    }
     low
 }
 
@@ -458,9 +468,6 @@ pub fn pivot_on_split(
 /// index, the second is the first value that is greater than
 /// our provided split value.
 ///
-/// WARNING!!! Currently, this function fails, if all the values are
-/// missing...
-///
 /// * `index` - The index values to sort.
 /// * `feature` - The feature vector to use to sort the index by.
 /// * `split_value` - the split value to use to pivot on.
@@ -471,6 +478,9 @@ pub fn pivot_on_split_exclude_missing(
     split_value: u16,
 ) -> (usize, usize) {
     // I think we can do this in O(n) time...
+    if index.is_empty() {
+        return (0, 0);
+    }
     let mut low = 0;
     let mut high = index.len() - 1;
     // The index of the first value, that is not
@@ -520,6 +530,17 @@ pub fn pivot_on_split_exclude_missing(
             index.swap(high, low);
         }
     }
+    // If we ran all the way to the last record, it has not been compared yet.
+    if low == max_idx {
+        let l = feature[index[low]];
+        if l == 0 {
+            index.swap(missing, low);
+            missing += 1;
+        }
+        if split_value > l {
+            low += 1;
+        }
+    }
     (missing, low)
 }
 
-- 
2.43.0


From a1498f65be2aed2e3612316e0a87e36921003317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:35 +0000
Subject: [PATCH 4/8] fix: keep the number of cuts within the range of the u16
 bins

With nbins = 65535 and 65536 unique values the largest value mapped to bin 65536,
and binning panicked.
---
 src/binning.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binning.rs b/src/binning.rs
index 6ae1d91..651a978 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -15,7 +15,8 @@ where
     let mut v_u = v.to_owned();
     v_u.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
     v_u.dedup();
-    if v_u.len() <= pcts.len() + 1 {
+    // Together with the trailing maximum cut, the bins must fit in a u16.
+    if v_u.len() <= (pcts.len() + 1).min(u16::MAX as usize) {
         v_u
     } else {
         percentiles(v, sample_weight, pcts)
-- 
2.43.0


From 3b452c65427b2529a21d409fa20ab7e2f0d20e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:39 +0000
Subject: [PATCH 5/8] verif: expose private modules to the verification harness
 behind cfg(forust_verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 99d93bf..a238582 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,3 +20,13 @@ pub mod utils;
 // Individual classes, and functions
 pub use data::Matrix;
 pub use gradientbooster::GradientBooster;
+
+/// Access to private items for the verification harness, never part of a normal build.
+#[cfg(forust_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::histogram::*;
+    pub use crate::node::*;
+    pub use crate::partial_dependence::*;
+    pub use crate::shapley::*;
+}
-- 
2.43.0


From f415638950937573e70fd7123dde927afe7100f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 6/8] fix: check min_leaf_weight before bounding the child
 weights to the parent

With force_children_to_bound_parent, l2 = 0 and l1 > 0, a candidate whose
side has no hessian has an undefined weight (0 / 0) and training aborted on
the bounds assertion, although the candidate is rejected by min_leaf_weight.
---
 src/splitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index b54a76c..23c1b13 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -367,6 +367,12 @@ impl Splitter for MissingBranchSplitter {
             return None;
         }
 
+        // Check the min_hessian constraint first, the weight of a side without any
+        // hessian might not be defined.
+        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
+            return None;
+        }
+
         let mut left_weight = constrained_weight(
             &self.l1,
             &self.l2,
@@ -397,12 +403,6 @@ impl Splitter for MissingBranchSplitter {
         let left_gain = gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight);
         let right_gain = gain_given_weight(&self.l2, right_gradient, right_hessian, right_weight);
 
-        // Check the min_hessian constraint first
-        if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
-            // Update for new value
-            return None;
-        }
-
         // We have not considered missing at all up until this point, we could if we wanted
         // to give more predictive power probably to missing.
         // If we don't want to allow the missing branch to be split further,
-- 
2.43.0


From 3bc1ddfe118c3efcbbcfe6ac58961217609b59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 7/8] fix: return one value per requested percentile

Repeated requests for percentile 1.0 (or several that rounding keeps out of
reach) returned fewer values than asked for.
---
 src/utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 21cce75..39054f5 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -359,13 +359,13 @@ where
                     None => return p,
                 }
             }
-        } else if current_pct == T::ONE {
-            if let Some(i_) = idx.last() {
-                p.push(v[*i_]);
-                break;
-            }
         }
     }
+    // Rounding can keep the cumulative percent just below the last percentiles
+    // (1.0 for example), they belong to the largest value.
+    while p.len() < percentiles.len() {
+        p.push(current_value);
+    }
     p
 }
 
-- 
2.43.0


From 163ed537822b3578d912cebd1e51c66907535c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:04 +0000
Subject: [PATCH 8/8] fix: keep averaged missing weights inside the inherited
 bounds

---
 src/splitter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index 23c1b13..537e78f 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -423,8 +423,16 @@ impl Splitter for MissingBranchSplitter {
             // Calculate the local leaf average for now, after training the tree.
             // Recursively assign to the leaf weights underneath.
             MissingNodeTreatment::AverageLeafWeight | MissingNodeTreatment::AverageNodeWeight => {
-                (right_weight * right_hessian + left_weight * left_hessian)
-                    / (right_hessian + left_hessian)
+                let average = (right_weight * right_hessian + left_weight * left_hessian)
+                    / (right_hessian + left_hessian);
+                // Rounding can push the average of two weights just outside of the bounds.
+                if average > upper_bound {
+                    upper_bound
+                } else if average < lower_bound {
+                    lower_bound
+                } else {
+                    average
+                }
             }
             MissingNodeTreatment::None => {
                 // If there are no missing records, just default
-- 
2.43.0


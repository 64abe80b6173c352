From c971bc960b405ea57d043bf6009517b5964947ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 1/3] fix: median_of_medians called with an empty slice for
 slices of length 11

median_of_ninthers samples len / 12 ninthers. For a slice of length 11 that is
none, so the nested median_of_medians was called with an empty slice and k = 0,
failing its debug assertion for consistent total orders that drive selection
into its guaranteed-linear fallback.
---
 src/par/partition.rs | 5 +++--
 src/partition.rs     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..f4f2a6c 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -19,8 +19,9 @@ use core::{
 use ndarray::{ArrayView1, ArrayViewMut1, Axis, IndexLonger, s};
 
 // For slices of up to this length it's probably faster to simply sort them.
-// Defined at the module scope because it's used in multiple functions.
-const MAX_INSERTION: usize = 10;
+// Defined at the module scope because it's used in multiple functions. Must be at least 11 because
+// `median_of_ninthers` samples `len / 12` ninthers and requires at least one of them.
+const MAX_INSERTION: usize = 11;
 
 pub fn par_partition_at_indices<'a, T, F>(
 	mut v: ArrayViewMut1<'a, T>,
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..e7f9c27 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -14,8 +14,9 @@ use core::{
 use ndarray::{ArrayView1, ArrayViewMut1, Axis, IndexLonger, s};
 
 // For slices of up to this length it's probably faster to simply sort them.
-// Defined at the module scope because it's used in multiple functions.
-const MAX_INSERTION: usize = 10;
+// Defined at the module scope because it's used in multiple functions. Must be at least 11 because
+// `median_of_ninthers` samples `len / 12` ninthers and requires at least one of them.
+const MAX_INSERTION: usize = 11;
 
 pub fn partition_at_indices<'a, T, E, F>(
 	mut v: ArrayViewMut1<'a, T>,
-- 
2.43.0


From d3bb067be4e6145f3048823e977298172a689591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 2/3] fix: median_of_medians quadratic with many elements equal
 to the pivot

---
 src/par/partition.rs | 19 +++++++++++++++----
 src/partition.rs     | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index f4f2a6c..229d644 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -265,11 +265,22 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
-				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				let mut mid = p + 1;
+				// If no element is less than the pivot, it's the smallest element in the slice. Skip
+				// all elements equal to it at once as otherwise many of them would be skipped one by
+				// one.
+				if p == 0 {
+					mid = partition_equal(v.view_mut(), p, is_less);
+
+					// If we've passed our index, then we're good.
+					if mid > k {
+						return;
+					}
+				}
+				// Since `p < mid <= k < v.len()`, `mid` is a valid index into the slice.
+				let (_left, right) = v.split_at(Axis(0), mid);
 				v = right;
-				k -= p + 1;
+				k -= mid;
 			}
 		}
 	}
diff --git a/src/partition.rs b/src/partition.rs
index e7f9c27..5773da3 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -226,11 +226,22 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
-				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				let mut mid = p + 1;
+				// If no element is less than the pivot, it's the smallest element in the slice. Skip
+				// all elements equal to it at once as otherwise many of them would be skipped one by
+				// one.
+				if p == 0 {
+					mid = partition_equal(v.view_mut(), p, is_less);
+
+					// If we've passed our index, then we're good.
+					if mid > k {
+						return;
+					}
+				}
+				// Since `p < mid <= k < v.len()`, `mid` is a valid index into the slice.
+				let (_left, right) = v.split_at(Axis(0), mid);
 				v = right;
-				k -= p + 1;
+				k -= mid;
 			}
 		}
 	}
-- 
2.43.0


From 09304655409a432dae9526d78712ee578a85374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 3/3] fix: par_quick_sort never fell back to heap sort after
 forking, quadratic worst case

---
 src/par/quick_sort.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/par/quick_sort.rs b/src/par/quick_sort.rs
index 7f897a5..f1fda30 100644
--- a/src/par/quick_sort.rs
+++ b/src/par/quick_sort.rs
@@ -132,6 +132,10 @@ fn recurse<'a, T, F>(
 				v = left;
 			}
 		} else {
+			// Account for an imbalanced partition here as `was_balanced` isn't passed on.
+			if !was_balanced {
+				limit = limit.saturating_sub(1);
+			}
 			// Sort the left and right half in parallel.
 			rayon::join(
 				|| maybe_grow(|| recurse(left, is_less, pred, limit)),
-- 
2.43.0


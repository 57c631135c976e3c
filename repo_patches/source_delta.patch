From 36c2250d6a123dfbec292cb91b473711610af43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 1/7] fix: forward_by must not wrap around on huge offsets

Container::forward_by and Range::forward_by computed index + offset with a
wrapping add in release builds, so an offset near usize::MAX moved the index
backwards and reported success (and panicked in debug builds).
---
 src/container.rs | 3 ++-
 src/indexing.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..83973e5 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,7 +217,8 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        // saturate: an offset that overflows usize is never in bounds
+        let i = index.index.saturating_add(offset);
         if i < self.len() {
             index.index = i;
             true
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..d409626 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,7 +265,8 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        // saturate: an offset that overflows usize is never in the range
+        let i = index.index.saturating_add(offset);
         if i < self.end {
             index.index = i;
             true
-- 
2.43.0


From 4d8ab061e0988b20882fb7b339347a4f87740d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 2/7] fix: scan_tail_ must not accept an edge pointer

The result always includes the location the pointer points to, so passing a
one-past-the-end PIndex<'id, T, Unknown> gave a range that reaches one element
outside the container. Only accept NonEmpty (dereferenceable) pointers.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..52b1972 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -306,7 +306,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
     ///
     /// Result always includes `index` in the range
     #[inline]
-    pub fn scan_tail_<P, F>(&self, index: PIndex<'id, T, P>, mut f: F) -> PRange<'id, T, P>
+    pub fn scan_tail_<F>(&self, index: PIndex<'id, T>, mut f: F) -> PRange<'id, T, NonEmpty>
         where F: FnMut(&T) -> bool
     {
         unsafe {
-- 
2.43.0


From 13e43f2569ef29400102902e6149146507d96a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 3/7] fix: split_container_at_pointer requires a mutable
 container

It hands out Container<&mut [T]>, but was available for any Contiguous array,
so a container of a shared slice &[T] could be mutated through it.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 52b1972..0636126 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -377,7 +377,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0


From 0a1858a42333d04de9a60fa207de73007dbcfa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 4/7] fix: lower_bound_raw_ptr panicked for zero-sized elements

It divided by size_of::<T>() to count elements.
---
 src/algorithms.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index c92beb0..fc23711 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -813,28 +813,25 @@ pub fn lower_bound_pslice<T, F>(v: &[T], f: F) -> usize
 pub fn lower_bound_raw_ptr<T: PartialOrd>(v: &[T], elt: &T) -> usize {
     unsafe {
         let mut start = v.as_ptr();
-        let end = start.offset(v.len() as isize);
-        let mut count = ptrdistance(start, end);
+        // number of elements before `start`; counted, since it can't be computed
+        // from the pointers if `T` is zero-sized
+        let mut pos = 0;
+        let mut count = v.len();
         while count > 0 {
             let step = count / 2;
             let it = start.offset(step as isize);
             if *it < *elt {
                 start = it.offset(1);
+                pos += step + 1;
                 count -= step + 1;
             } else {
                 count = step;
             }
         }
-        ptrdistance(v.as_ptr(), start)
+        pos
     }
 }
 
-/// return the number of steps between a and b
-fn ptrdistance<T>(from: *const T, to: *const T) -> usize {
-    use std::mem;
-    (to as usize - from as usize) / mem::size_of::<T>()
-}
-
 
 #[test]
 fn test_lower_bound() {
-- 
2.43.0


From 315b3a633ccb08a93fbbabba3bb68e12e719b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 5/7] fix: swap of equal indices violated pointer aliasing
 rules

Container::swap(i, i) is documented as allowed, but held two sibling element
pointers derived from separate mutable borrows and wrote through both (undefined
behaviour under both Stacked Borrows and Tree Borrows). Use one borrow at a time.
---
 src/container.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 83973e5..5d06759 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -321,10 +321,11 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
         where Array: GetUncheckedMut
     {
         unsafe {
-            let self_mut = self as *mut Self;
-            let pi: *mut _ = &mut (*self_mut)[i];
-            let pj: *mut _ = &mut (*self_mut)[j];
-            ptr::swap(pi, pj);
+            // Go through one element borrow at a time; two element pointers
+            // held together alias each other when `i` and `j` are equal.
+            let old_i = ptr::read(&self[i]);
+            let old_j = mem::replace(&mut self[j], old_i);
+            ptr::write(&mut self[i], old_j);
         }
     }
 
-- 
2.43.0


From 6feb1a94dcb8a490fc25eb3bc3259cf37322cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 6/7] fix: quicksorts overflowed the stack on inputs with many
 equal elements

Every level of recursion split off only one element for such inputs. Recurse
into the shorter part and loop on the longer one, so that the depth is
logarithmic.
---
 src/algorithms.rs | 72 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index fc23711..fe27970 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -6,6 +6,7 @@
 
 use std::cmp::{self, Ordering};
 use std::mem::swap;
+use std::ops::Range;
 
 use crate::scope;
 #[cfg(feature="experimental_pointer_ranges")]
@@ -31,14 +32,22 @@ macro_rules! puts {
 const QS_INSERTION_SORT_THRESH: usize = 24;
 
 /// Simple quicksort implemented using `Range`,
-pub fn quicksort_range<T: Ord>(v: &mut [T]) {
+pub fn quicksort_range<T: Ord>(mut v: &mut [T]) {
+    while let Some(rest) = quicksort_range_part(v) {
+        v = &mut {v}[rest];
+    }
+}
+
+/// Partition, sort the shorter part and return the other; recursing only
+/// into the shorter part limits the stack depth to log2 of the length.
+fn quicksort_range_part<T: Ord>(v: &mut [T]) -> Option<Range<usize>> {
     scope(v, |mut v| {
         let range = v.range();
         if let Ok(range) = range.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
                 insertion_sort_ranges(&mut v[..], |x, y| x < y);
-                return;
+                return None;
             }
 
             let (l, m, r) = (range.first(), range.upper_middle(), range.last());
@@ -79,22 +88,37 @@ pub fn quicksort_range<T: Ord>(v: &mut [T]) {
             // ok split at pivot location and recurse
             let (a, b) = v.split_at(scan.first());
             //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_range(&mut v[a]);
-            quicksort_range(&mut v[b]);
+            if a.len() < b.len() {
+                quicksort_range(&mut v[a]);
+                Some(b.as_range())
+            } else {
+                quicksort_range(&mut v[b]);
+                Some(a.as_range())
+            }
+        } else {
+            None
         }
-    });
+    })
 }
 
 /// Simple quicksort implemented using `indexing`’s PRange.
 #[cfg(feature="experimental_pointer_ranges")]
-pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
+pub fn quicksort_prange<T: Ord>(mut v: &mut [T]) {
+    while let Some(rest) = quicksort_prange_part(v) {
+        v = &mut {v}[rest];
+    }
+}
+
+/// See `quicksort_range_part`
+#[cfg(feature="experimental_pointer_ranges")]
+fn quicksort_prange_part<T: Ord>(v: &mut [T]) -> Option<Range<usize>> {
     scope(v, |mut v| {
         let range = v.pointer_range();
         if let Ok(range) = range.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
                 insertion_sort_ranges(&mut v[..], |x, y| x < y);
-                return;
+                return None;
             }
 
             let (l, m, r) = (range.first(), range.upper_middle(), range.last());
@@ -135,19 +159,34 @@ pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
             // ok split at pivot location and recurse
             let (a, b) = v.split_at_pointer(scan.first());
             //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_prange(&mut v[a]);
-            quicksort_prange(&mut v[b]);
+            let mid = v.distance_to(scan.first());
+            if a.len() < b.len() {
+                quicksort_prange(&mut v[a]);
+                Some(mid..v.len())
+            } else {
+                quicksort_prange(&mut v[b]);
+                Some(0..mid)
+            }
+        } else {
+            None
         }
-    });
+    })
 }
 
 
 /// quicksort implemented using regular bounds checked indexing
-pub fn quicksort_bounds<T: Ord>(v: &mut [T]) {
+pub fn quicksort_bounds<T: Ord>(mut v: &mut [T]) {
+    while let Some(rest) = quicksort_bounds_part(v) {
+        v = rest;
+    }
+}
+
+/// See `quicksort_range_part`
+fn quicksort_bounds_part<T: Ord>(v: &mut [T]) -> Option<&mut [T]> {
     // Fall back to insertion sort for short sections
     if v.len() <= QS_INSERTION_SORT_THRESH {
         insertion_sort_ranges(&mut v[..], |x, y| x < y);
-        return;
+        return None;
     }
 
     let (l, m, r) = (0, v.len() / 2, v.len() - 1);
@@ -183,8 +222,13 @@ pub fn quicksort_bounds<T: Ord>(v: &mut [T]) {
 
     // ok split at pivot location and recurse
     let (a, b) = v.split_at_mut(i);
-    quicksort_bounds(a);
-    quicksort_bounds(b);
+    if a.len() < b.len() {
+        quicksort_bounds(a);
+        Some(b)
+    } else {
+        quicksort_bounds(b);
+        Some(a)
+    }
 }
 
 #[cfg(feature="experimental_pointer_ranges")]
-- 
2.43.0


From 163b77229d220761c74aca55784efe57f724e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 7/7] fix: merging empty data panicked in debug builds instead
 of returning its result

merge_internal_indices and merge_internal_ranges handle empty data (and report
an error if left_end is too large), but asserted that there is an element.
---
 src/algorithms.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index fe27970..587fc62 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -431,7 +431,6 @@ impl From<&'static str> for AlgorithmError {
 pub fn merge_internal_indices<T: Ord>(data: &mut [T], left_end: usize, buffer: &mut [T])
     -> Result<(), AlgorithmError>
 {
-    debug_assert!(data.len() >= 1);
     if left_end > data.len() || left_end > buffer.len() {
         Err("merge_internal: data or buffer too short")?;
     }
@@ -488,7 +487,6 @@ pub fn merge_internal_indices<T: Ord>(data: &mut [T], left_end: usize, buffer: &
 pub fn merge_internal_ranges<T: Ord>(data: &mut [T], left_end: usize, buffer: &mut [T])
     -> Result<(), AlgorithmError>
 {
-    debug_assert!(data.len() >= 1);
     if left_end > data.len() || left_end > buffer.len() {
         Err("merge_internal: data or buffer too short")?;
     }
-- 
2.43.0


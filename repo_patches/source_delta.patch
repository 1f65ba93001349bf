From 54452006edafc49b4ba1ee14bdbdef47726b8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 1/5] fix: forward_by must refuse an offset that overflows

index + offset wrapped around in release builds, so a huge offset moved
the cursor backwards and reported success (and panicked in debug builds).
---
 src/container.rs | 12 +++++++-----
 src/indexing.rs  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..821fb55 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,11 +217,13 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
-        if i < self.len() {
-            index.index = i;
-            true
-        } else { false }
+        match index.index.checked_add(offset) {
+            Some(i) if i < self.len() => {
+                index.index = i;
+                true
+            }
+            _ => false,
+        }
     }
 
     /// Increment `r`, clamping to the end of the Container.
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..84282eb 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,11 +265,13 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
-        if i < self.end {
-            index.index = i;
-            true
-        } else { false }
+        match index.index.checked_add(offset) {
+            Some(i) if i < self.end => {
+                index.index = i;
+                true
+            }
+            _ => false,
+        }
     }
 
     /// Increment `r`, clamping to the end of `self`.
-- 
2.43.0


From 405d3fc865e41b181344f2e3a1a8d925b7ed9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 2/5] fix: scan_tail_ from the end pointer must stay in the
 container

For an edge pointer at the end of the container the returned range
included one element past the end.
---
 src/pointer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..0cf154d 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -321,7 +321,13 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
                 }
                 end.dec();
             }
-            PRange::new(end, index.ptr().offset(1))
+            // an edge pointer has no element of its own to include
+            let past = if index.ptr() == self.end() {
+                index.ptr()
+            } else {
+                index.ptr().offset(1)
+            };
+            PRange::new(end, past)
         }
     }
 
-- 
2.43.0


From c6e7d295d910f789147f4670ed4aa7df02322277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 3/5] fix: split_container_at_pointer needs exclusive storage

It hands out &mut [T] containers for both parts, but accepted any
Contiguous storage: from a container over a shared slice safe code could
get aliasing mutable slices. Require ContiguousMut.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 0cf154d..1674450 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -383,7 +383,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0


From afbff43bac1f6f755b3c41be289e7ae96947b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 4/5] fix: lower_bound_raw_ptr must not divide by the element
 size

Elements may be zero-sized; count positions instead of dividing the
address distance by size_of::<T>().
---
 src/algorithms.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index c92beb0..129e63e 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -813,28 +813,23 @@ pub fn lower_bound_pslice<T, F>(v: &[T], f: F) -> usize
 pub fn lower_bound_raw_ptr<T: PartialOrd>(v: &[T], elt: &T) -> usize {
     unsafe {
         let mut start = v.as_ptr();
-        let end = start.offset(v.len() as isize);
-        let mut count = ptrdistance(start, end);
+        let mut pos = 0;
+        let mut count = v.len();
         while count > 0 {
             let step = count / 2;
             let it = start.offset(step as isize);
             if *it < *elt {
                 start = it.offset(1);
+                pos += step + 1;
                 count -= step + 1;
             } else {
                 count = step;
             }
         }
-        ptrdistance(v.as_ptr(), start)
+        pos
     }
 }
 
-/// return the number of steps between a and b
-fn ptrdistance<T>(from: *const T, to: *const T) -> usize {
-    use std::mem;
-    (to as usize - from as usize) / mem::size_of::<T>()
-}
-
 
 #[test]
 fn test_lower_bound() {
-- 
2.43.0


From cd08cd940afa198fcc7c98a349e675b88d3819ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 5/5] fix: zip must visit every pair of zero-sized elements

The loop compared the first range's pointer with its end, which are equal
from the start when the elements are zero-sized.
---
 src/pointer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 1674450..4e06194 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -422,10 +422,10 @@ pub fn zip<'id1, 'id2, C1, C2, R1, R2, F>(r1: R1, c1: C1, r2: R2, c2: C2, mut f:
     let _ = c2;
     let len = min(r1.len(), r2.len());
     unsafe {
-        let end = r1.first().ptr().offset(len as isize);
         let mut ptr1 = r1.first().ptr();
         let mut ptr2 = r2.first().ptr();
-        while ptr1 != end {
+        // count the pairs: pointers to zero-sized elements do not advance
+        for _ in 0..len {
             f(C1::dereference(ptr1), C2::dereference(ptr2));
             ptr1.inc();
             ptr2.inc();
-- 
2.43.0


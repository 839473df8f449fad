From 65e41047cf396e17b042be4106009a17cfbfaf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 01/16] Model-checking hook: route the remaining atomics
 through loom types under cfg(scc_mc)

---
 src/hash_index.rs               | 3 +++
 src/hash_table/bucket.rs        | 3 +++
 src/hash_table/bucket_array.rs  | 3 +++
 src/lib.rs                      | 1 +
 src/tree_index/internal_node.rs | 3 +++
 src/tree_index/leaf_node.rs     | 3 +++
 6 files changed, 16 insertions(+)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 93bcff7..d205921 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -7,11 +7,14 @@ use std::iter::FusedIterator;
 use std::ops::{Deref, RangeInclusive};
 use std::panic::UnwindSafe;
 use std::ptr;
+#[cfg(not(scc_mc))]
 use std::sync::atomic::AtomicU8;
 #[cfg(not(feature = "loom"))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 
+#[cfg(scc_mc)]
+use loom::sync::atomic::AtomicU8;
 #[cfg(feature = "loom")]
 use loom::sync::atomic::AtomicUsize;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 696c865..25e7890 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -4,8 +4,11 @@ use std::mem::{MaybeUninit, forget, needs_drop};
 use std::ops::{Deref, Index};
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
+#[cfg(not(scc_mc))]
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
 
+#[cfg(scc_mc)]
+use loom::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
 use saa::Lock;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
 
diff --git a/src/hash_table/bucket_array.rs b/src/hash_table/bucket_array.rs
index 94e961e..3b796cf 100644
--- a/src/hash_table/bucket_array.rs
+++ b/src/hash_table/bucket_array.rs
@@ -2,9 +2,12 @@ use std::alloc::{Layout, alloc, alloc_zeroed, dealloc};
 use std::mem::{align_of, needs_drop, size_of};
 use std::panic::UnwindSafe;
 use std::ptr::NonNull;
+#[cfg(not(scc_mc))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::{Acquire, Relaxed};
 
+#[cfg(scc_mc)]
+use loom::sync::atomic::AtomicUsize;
 use sdd::{AtomicShared, Guard, Tag};
 
 use super::bucket::{BUCKET_LEN, Bucket, DataBlock, INDEX, LruList};
diff --git a/src/lib.rs b/src/lib.rs
index f3ee0f9..bf9eb1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(missing_docs, warnings, clippy::all, clippy::pedantic)]
+#![allow(unexpected_cfgs)] // `scc_mc`: model-checking builds.
 #![doc = include_str!("../README.md")]
 
 // Re-export [`sdd`](https://crates.io/crates/sdd) modules for backward compatibility.
diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 86718f6..44fd9f6 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -2,9 +2,12 @@ use std::cmp::Ordering::{Equal, Greater, Less};
 use std::mem::forget;
 use std::ops::RangeBounds;
 use std::ptr;
+#[cfg(not(scc_mc))]
 use std::sync::atomic::AtomicPtr;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 
+#[cfg(scc_mc)]
+use loom::sync::atomic::AtomicPtr;
 use saa::Lock;
 use sdd::{AtomicShared, Guard, Ptr, Shared, Tag};
 
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 18cdda2..a897568 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -1,9 +1,12 @@
 use std::cmp::Ordering::{Equal, Greater, Less};
 use std::ops::{Bound, RangeBounds};
 use std::ptr;
+#[cfg(not(scc_mc))]
 use std::sync::atomic::AtomicPtr;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 
+#[cfg(scc_mc)]
+use loom::sync::atomic::AtomicPtr;
 use saa::Lock;
 use sdd::{AtomicShared, Guard, Ptr, Shared, Tag};
 
-- 
2.43.0


From 1a104a1a305cfae7e4b7e570fc46ddce9b5cbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 02/16] fix: TreeIndex::remove_if no longer removes an entry
 inserted after its own removal

When the removal emptied the root and the root could not be cleaned up right away, the key was
searched for again, and an entry inserted in the meantime was removed as well.
---
 src/tree_index.rs | 44 ++++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/tree_index.rs b/src/tree_index.rs
index b0a40fe..bb5173a 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -378,7 +378,13 @@ where
         loop {
             {
                 let guard = Guard::new();
-                if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
+                if removed {
+                    // The entry was removed: do not search for the key again, otherwise a newly
+                    // inserted entry could be removed.
+                    if Node::cleanup_root(&self.root, &mut pinned_async_wait, &guard) {
+                        return true;
+                    }
+                } else if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                     if let Ok(result) = root_ref.remove_if::<_, _, _>(
                         key,
                         &mut condition,
@@ -396,24 +402,12 @@ where
                                 }
                                 removed = true;
                             }
-                            RemoveResult::Fail => {
-                                if removed {
-                                    if Node::cleanup_root(
-                                        &self.root,
-                                        &mut pinned_async_wait,
-                                        &guard,
-                                    ) {
-                                        return true;
-                                    }
-                                } else {
-                                    return false;
-                                }
-                            }
+                            RemoveResult::Fail => return false,
                             RemoveResult::Frozen => (),
                         }
                     }
                 } else {
-                    return removed;
+                    return false;
                 }
             }
             pinned_async_wait.wait().await;
@@ -446,7 +440,13 @@ where
         let mut removed = false;
         loop {
             let guard = Guard::new();
-            if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
+            if removed {
+                // The entry was removed: do not search for the key again, otherwise a newly inserted
+                // entry could be removed.
+                if Node::cleanup_root(&self.root, &mut (), &guard) {
+                    return true;
+                }
+            } else if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                 if let Ok(result) =
                     root_ref.remove_if::<_, _, _>(key, &mut condition, &mut (), &guard)
                 {
@@ -461,20 +461,12 @@ where
                             }
                             removed = true;
                         }
-                        RemoveResult::Fail => {
-                            if removed {
-                                if Node::cleanup_root(&self.root, &mut (), &guard) {
-                                    return true;
-                                }
-                            } else {
-                                return false;
-                            }
-                        }
+                        RemoveResult::Fail => return false,
                         RemoveResult::Frozen => (),
                     }
                 }
             } else {
-                return removed;
+                return false;
             }
         }
     }
-- 
2.43.0


From a3cc2c8b93952ce8dc25c6b773aa865af4d1bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 03/16] fix: capacity_range reports the minimum capacity while
 the container is being resized

The internal resizing flag was part of the lower bound.
---
 src/hash_cache.rs | 2 +-
 src/hash_index.rs | 2 +-
 src/hash_map.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash_cache.rs b/src/hash_cache.rs
index b2a085f..3e45c9b 100644
--- a/src/hash_cache.rs
+++ b/src/hash_cache.rs
@@ -1154,7 +1154,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 }
 
diff --git a/src/hash_index.rs b/src/hash_index.rs
index d205921..74c723d 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1115,7 +1115,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
diff --git a/src/hash_map.rs b/src/hash_map.rs
index 494f7ee..4364c0a 100644
--- a/src/hash_map.rs
+++ b/src/hash_map.rs
@@ -1457,7 +1457,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
-- 
2.43.0


From eb5c9899e3d9ca182658d6c94342a3a2b71cd202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 04/16] fix: keep the iterators of HashIndex and TreeIndex
 fused

They implement FusedIterator, but calling next() again after it had
returned None restarted the traversal.
---
 src/hash_index.rs |  8 ++++++++
 src/tree_index.rs | 20 ++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 74c723d..0853640 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -115,6 +115,7 @@ where
     index: usize,
     bucket: Option<&'h Bucket<K, V, (), INDEX>>,
     entry_ptr: EntryPtr<K, V, INDEX>,
+    finished: bool,
     guard: &'h Guard,
 }
 
@@ -1178,6 +1179,7 @@ where
             index: 0,
             bucket: None,
             entry_ptr: EntryPtr::null(),
+            finished: false,
             guard,
         }
     }
@@ -2100,6 +2102,11 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.finished {
+            return None;
+        }
+        self.finished = true;
+
         let mut array = if let Some(&array) = self.bucket_array.as_ref() {
             array
         } else {
@@ -2122,6 +2129,7 @@ where
                 if self.entry_ptr.move_to_next(bucket) {
                     let (k, v) = self.entry_ptr.get(array.data_block(self.index));
                     self.bucket.replace(bucket);
+                    self.finished = false;
                     return Some((k, v));
                 }
             }
diff --git a/src/tree_index.rs b/src/tree_index.rs
index bb5173a..6eb599b 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -73,6 +73,7 @@ pub struct TreeIndex<K, V> {
 pub struct Iter<'t, 'g, K, V> {
     root: &'t AtomicShared<Node<K, V>>,
     leaf_scanner: Option<Scanner<'g, K, V>>,
+    finished: bool,
     guard: &'g Guard,
 }
 
@@ -83,6 +84,7 @@ pub struct Range<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> {
     bounds: R,
     check_lower_bound: bool,
     check_upper_bound: bool,
+    finished: bool,
     guard: &'g Guard,
     query: PhantomData<fn() -> Q>,
 }
@@ -864,6 +866,7 @@ impl<'t, 'g, K, V> Iter<'t, 'g, K, V> {
         Iter::<'t, 'g, K, V> {
             root,
             leaf_scanner: None,
+            finished: false,
             guard,
         }
     }
@@ -887,6 +890,11 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.finished {
+            return None;
+        }
+        self.finished = true;
+
         // Starts scanning.
         if self.leaf_scanner.is_none() {
             let root_ptr = self.root.load(Acquire, self.guard);
@@ -904,12 +912,14 @@ where
             let min_allowed_key = scanner.get().map(|(key, _)| key);
             if let Some(result) = scanner.next() {
                 self.leaf_scanner.replace(scanner);
+                self.finished = false;
                 return Some(result);
             }
             // Go to the next leaf node.
             if let Some(new_scanner) = scanner.jump(min_allowed_key, self.guard) {
                 if let Some(entry) = new_scanner.get() {
                     self.leaf_scanner.replace(new_scanner);
+                    self.finished = false;
                     return Some(entry);
                 }
             }
@@ -940,6 +950,7 @@ impl<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> Range<'t, 'g, K, V, Q, R> {
             bounds: range,
             check_lower_bound: true,
             check_upper_bound: false,
+            finished: false,
             guard,
             query: PhantomData,
         }
@@ -1047,6 +1058,11 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.finished {
+            return None;
+        }
+        self.finished = true;
+
         while let Some((k, v)) = self.next_unbounded() {
             if self.check_lower_bound {
                 match self.bounds.start_bound() {
@@ -1068,20 +1084,24 @@ where
                 match self.bounds.end_bound() {
                     Excluded(key) => {
                         if key.compare(k).is_gt() {
+                            self.finished = false;
                             return Some((k, v));
                         }
                     }
                     Included(key) => {
                         if key.compare(k).is_ge() {
+                            self.finished = false;
                             return Some((k, v));
                         }
                     }
                     Unbounded => {
+                        self.finished = false;
                         return Some((k, v));
                     }
                 }
                 break;
             }
+            self.finished = false;
             return Some((k, v));
         }
         None
-- 
2.43.0


From 5651dbaa733b985a0068c3ecd1ea59014ceaab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:52 +0000
Subject: [PATCH 05/16] fix: give up the reserved capacity if resizing fails in
 reserve

If the allocation of the new bucket array panicked, the minimum capacity
of the container stayed increased although no Reserve was returned.
---
 src/hash_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index cd2794a..c825524 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -105,12 +105,18 @@ where
                 Relaxed,
             ) {
                 Ok(_) => {
+                    // Give up the reserved capacity if memory allocation fails.
+                    let revert = ExitGuard::new((), |()| {
+                        self.minimum_capacity_var()
+                            .fetch_sub(additional_capacity, Relaxed);
+                    });
                     let guard = Guard::new();
                     if let Some(current_array) = self.bucket_array(&guard) {
                         if !current_array.has_linked_array() {
                             self.try_resize(current_array, 0, &guard);
                         }
                     }
+                    revert.forget();
                     return additional_capacity;
                 }
                 Err(actual) => current_minimum_capacity = actual,
-- 
2.43.0


From fd053f896d4bc818727dbf513804731cd4106af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:52 +0000
Subject: [PATCH 06/16] fix: allocate slots before relocating entries into a
 bucket without linked buckets

reserve_slots did not allocate anything if the bucket had no linked
bucket. An allocation failure while the entries of an overflowing bucket
were relocated then dropped an entry that the old bucket still owned.
---
 src/hash_table/bucket.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 25e7890..3ce839b 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -309,6 +309,13 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             BUCKET_LEN - self.metadata.occupied_bitmap.load(Relaxed).count_ones() as usize;
         if capacity < additional {
             let mut link_ptr = self.metadata.load_link();
+            if link_ptr.is_null() {
+                let new_link = unsafe { Shared::new_unchecked(LinkedBucket::new(None)) };
+                link_ptr = new_link.as_ptr();
+                self.metadata
+                    .link
+                    .swap((Some(new_link), Tag::None), Release);
+            }
             while let Some(link) = link_ref(link_ptr) {
                 capacity += LINKED_BUCKET_LEN
                     - link.metadata.occupied_bitmap.load(Relaxed).count_ones() as usize;
-- 
2.43.0


From 5c06deb8e448b2aca92eb39b984259a670e78ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 07/16] fix: roll back the linked list of leaves when user code
 panics in a leaf split

---
 src/tree_index/leaf_node.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index a897568..332b406 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -807,10 +807,15 @@ where
         let target = full_leaf_ptr.as_ref().unwrap();
 
         // Distribute entries to two leaves after make the target retired.
-        let exit_guard = ExitGuard::new((), |()| {
-            target.thaw();
-            self.split_op.reset();
-            self.lock.release_lock();
+        let mut exit_guard = ExitGuard::new(false, |linked| {
+            if linked {
+                // The new leaves are reachable through the linked list.
+                self.rollback(guard);
+            } else {
+                target.thaw();
+                self.split_op.reset();
+                self.lock.release_lock();
+            }
         });
 
         let mut low_key_leaf_shared = Shared::new(Leaf::new());
@@ -841,6 +846,7 @@ where
             let result =
                 target.push_back(low_key_leaf_ptr.get_shared().unwrap(), true, Release, guard);
             debug_assert!(result.is_ok());
+            *exit_guard = true;
 
             // Take the max key value stored in the low key leaf as the leaf key.
             let low_key_leaf = low_key_leaf_ptr.as_ref().unwrap();
-- 
2.43.0


From 2d66b69475ea537e99c9f40a37e390085da2871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 08/16] fix: compare keys before deleting a retired leaf from
 the linked list

---
 src/tree_index/leaf_node.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 332b406..90b2ca7 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -932,10 +932,11 @@ where
                 let leaf_ptr = entry.1.load(Acquire, guard);
                 let leaf = leaf_ptr.as_ref().unwrap();
                 if leaf.is_retired() {
-                    let deleted = leaf.delete_self(Release);
-                    debug_assert!(deleted);
+                    // Comparing keys may panic, and therefore it needs to precede `delete_self`.
                     let result = self.children.remove_if(entry.0, &mut |_| true);
                     debug_assert_ne!(result, RemoveResult::Fail);
+                    let deleted = leaf.delete_self(Release);
+                    debug_assert!(deleted);
 
                     // The pointer is nullified after the metadata of `self.children` is updated so
                     // that readers are able to retry when they find it being `null`.
-- 
2.43.0


From 0c3556a731184ee7b467b5cf6aa3ef9b1af49f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 09/16] fix: compare all the keys before detaching sub-trees in
 TreeIndex::remove_range

---
 src/tree_index/internal_node.rs | 37 +++++++++++++++++++++------------
 src/tree_index/leaf.rs          | 23 ++++++++++++++++++++
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 44fd9f6..6653a17 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -451,7 +451,13 @@ where
         let mut lower_border = None;
         let mut upper_border = None;
 
-        for (key, node) in Scanner::new(&self.children) {
+        // Children to remove are detached after all the keys are compared, otherwise their entries
+        // are reachable only through the linked list of leaves if comparing keys panics.
+        let mut obsolete: [Option<&AtomicShared<Node<K, V>>>; DIMENSION.num_entries] =
+            Default::default();
+
+        let mut scanner = Scanner::new(&self.children);
+        while let Some((key, node)) = scanner.next() {
             current_state = current_state.next(key, range, start_unbounded);
             match current_state {
                 RemoveRangeState::Below => {
@@ -460,19 +466,17 @@ where
                 RemoveRangeState::MaybeBelow => {
                     debug_assert!(!start_unbounded);
                     num_children += 1;
-                    lower_border.replace((Some(key), node));
+                    lower_border.replace((Some(scanner.index()), node));
                 }
                 RemoveRangeState::FullyContained => {
                     // There can be another thread inserting keys into the node, and this may
                     // render those concurrent operations completely ineffective.
-                    self.children.remove_if(key, &mut |_| true);
-                    node.swap((None, Tag::None), AcqRel);
+                    obsolete[scanner.index()].replace(node);
                 }
                 RemoveRangeState::MaybeAbove => {
                     if valid_upper_min_node.is_some() {
                         // `valid_upper_min_node` is not in this sub-tree.
-                        self.children.remove_if(key, &mut |_| true);
-                        node.swap((None, Tag::None), AcqRel);
+                        obsolete[scanner.index()].replace(node);
                     } else {
                         num_children += 1;
                         upper_border.replace(node);
@@ -517,13 +521,7 @@ where
             // Pass `upper_node` to the lower leaf to connect leaves, so that this method can be
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
-            if let Some((Some(key), lower_node)) = lower_border {
-                self.children.remove_if(key, &mut |_| true);
-                self.unbounded_child
-                    .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
-                lower_node.swap((None, Tag::None), Release);
-            }
-            if let Some(lower_node) = self.unbounded_child.load(Acquire, guard).as_ref() {
+            if let Some(lower_node) = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref()) {
                 lower_node.remove_range(
                     range,
                     start_unbounded,
@@ -533,6 +531,12 @@ where
                     guard,
                 )?;
             }
+            if let Some((Some(index), lower_node)) = lower_border {
+                self.children.remove_unchecked(index);
+                self.unbounded_child
+                    .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
+                lower_node.swap((None, Tag::None), Release);
+            }
         } else {
             let lower_node = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref());
             let upper_node = upper_border.and_then(|n| n.load(Acquire, guard).as_ref());
@@ -562,6 +566,13 @@ where
             }
         }
 
+        for (index, node) in obsolete.into_iter().enumerate() {
+            if let Some(node) = node {
+                self.children.remove_unchecked(index);
+                node.swap((None, Tag::None), AcqRel);
+            }
+        }
+
         Ok(num_children)
     }
 
diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index e5845ff..8043c1b 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -378,6 +378,23 @@ where
         }
     }
 
+    /// Removes the entry at the specified index without comparing keys.
+    ///
+    /// The caller must prevent other threads from modifying the [`Leaf`].
+    #[inline]
+    pub(super) fn remove_unchecked(&self, index: usize) {
+        let metadata = self.metadata.load(Acquire) | DIMENSION.rank_mask(index);
+        let empty = Self::next(DIMENSION.num_entries, metadata) == DIMENSION.num_entries;
+        self.metadata.store(
+            if empty {
+                Dimension::retire(metadata)
+            } else {
+                metadata
+            },
+            Release,
+        );
+    }
+
     /// Removes the key if the condition is met.
     #[inline]
     pub(super) fn remove_if<Q, F: FnMut(&V) -> bool>(
@@ -897,6 +914,12 @@ impl<'l, K, V> Scanner<'l, K, V> {
         ))
     }
 
+    /// Returns the index of the entry that the scanner is currently pointing to.
+    #[inline]
+    pub(super) const fn index(&self) -> usize {
+        self.entry_index
+    }
+
     /// Returns a reference to the max key.
     #[inline]
     pub(super) fn max_key(&self) -> Option<&'l K> {
-- 
2.43.0


From 7dbc2ab51e80aa622eeca6dc62619e928925ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 10/16] fix: check the upper bound of a range against the
 entries that the scanner yields

---
 src/tree_index/leaf.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index 8043c1b..aaa4039 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -158,13 +158,12 @@ impl<K, V> Leaf<K, V> {
     /// Returns a reference to the max key.
     #[inline]
     pub(super) fn max_key(&self) -> Option<&K> {
-        self.max_entry().map(|(k, _)| k)
+        self.max_entry(self.metadata.load(Acquire)).map(|(k, _)| k)
     }
 
-    /// Returns a reference to the max entry.
+    /// Returns a reference to the max entry in the metadata.
     #[inline]
-    pub(super) fn max_entry(&self) -> Option<(&K, &V)> {
-        let mut mutable_metadata = self.metadata.load(Acquire);
+    fn max_entry(&self, mut mutable_metadata: usize) -> Option<(&K, &V)> {
         let mut max_rank = 0;
         let mut max_index = DIMENSION.num_entries;
         for i in 0..DIMENSION.num_entries {
@@ -920,10 +919,10 @@ impl<'l, K, V> Scanner<'l, K, V> {
         self.entry_index
     }
 
-    /// Returns a reference to the max key.
+    /// Returns a reference to the max key among those keys that the [`Scanner`] can reach.
     #[inline]
     pub(super) fn max_key(&self) -> Option<&'l K> {
-        self.leaf.max_key()
+        self.leaf.max_entry(self.metadata).map(|(k, _)| k)
     }
 
     /// Traverses the linked list.
-- 
2.43.0


From 0aa844cbb3c707cb637e6dfe0d23e15545d2e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 11/16] fix: always compare keys when an iterator moves to
 another leaf

---
 src/tree_index/leaf.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index aaa4039..8d81c8e 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -939,19 +939,17 @@ impl<'l, K, V> Scanner<'l, K, V> {
         while let Some(next_leaf_ref) = next_leaf_ptr.as_ref() {
             let mut leaf_scanner = Scanner::new(next_leaf_ref);
             if let Some(key) = min_allowed_key {
-                if !self.leaf.is_clear(Relaxed) {
-                    // Data race resolution: compare keys if the current leaf has been deleted.
-                    //
-                    // There is a chance that the current leaf has been deleted, and smaller
-                    // keys have been inserted into the next leaf.
-                    while let Some((k, _)) = leaf_scanner.next() {
-                        if key.cmp(k) == Ordering::Less {
-                            return Some(leaf_scanner);
-                        }
+                // Data race resolution: compare keys.
+                //
+                // There is a chance that the current leaf has been deleted or detached from the
+                // tree, and smaller keys have been inserted into the next leaf.
+                while let Some((k, _)) = leaf_scanner.next() {
+                    if key.cmp(k) == Ordering::Less {
+                        return Some(leaf_scanner);
                     }
-                    next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
-                    continue;
                 }
+                next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
+                continue;
             }
             if leaf_scanner.next().is_some() {
                 return Some(leaf_scanner);
-- 
2.43.0


From 61b7dbffca6a0fb633e0e46eed45fdcdb0e878f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 12/16] fix: compute the layout of a bucket array with overflow
 checks

reserve() and with_capacity() with up to 2^62 slots passed a size beyond
isize::MAX to Layout::from_size_align_unchecked, which is undefined behavior.
---
 src/hash_table/bucket_array.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hash_table/bucket_array.rs b/src/hash_table/bucket_array.rs
index 3b796cf..86bc3de 100644
--- a/src/hash_table/bucket_array.rs
+++ b/src/hash_table/bucket_array.rs
@@ -188,7 +188,10 @@ impl<K, V, L: LruList, const TYPE: char> BucketArray<K, V, L, TYPE> {
         let size_of_t = size_of::<Bucket<K, V, L, TYPE>>();
         let allocation_size = (array_len + 1) * size_of_t;
         // Intentionally misaligned in order to take full advantage of demand paging.
-        unsafe { Layout::from_size_align_unchecked(allocation_size, 1) }
+        match Layout::from_size_align(allocation_size, 1) {
+            Ok(layout) => layout,
+            Err(_) => panic!("memory allocation failure: too large a bucket array"),
+        }
     }
 }
 
-- 
2.43.0


From ece75fbbda5e4f8cd3078033193b193fc0238a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 13/16] Model-checking hook: make accesses to partial hashes of
 HashIndex buckets visible under cfg(scc_mc)

---
 src/hash_table/bucket.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 3ce839b..d14b310 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -103,6 +103,9 @@ struct Metadata<K, V, const LEN: usize> {
     /// Partial hash array for fast hash lookup, or the epoch when the corresponding entry was
     /// removed if `TYPE = INDEX`.
     partial_hash_array: [UnsafeCell<u8>; LEN],
+    /// Makes accesses to the partial hash array visible to the model checker.
+    #[cfg(scc_mc)]
+    hash_access: AtomicU32,
 }
 
 /// The size of the linked data block.
@@ -131,6 +134,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 occupied_bitmap: AtomicU32::default(),
                 removed_bitmap: AtomicU32::default(),
                 partial_hash_array: Default::default(),
+                #[cfg(scc_mc)]
+                hash_access: AtomicU32::new(0),
             },
             lru_list: L::default(),
         }
@@ -230,6 +235,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         self.len.store(self.len.load(Relaxed) - 1, Relaxed);
 
         if let Some(link) = link_ref(entry_ptr.link_ptr) {
+            #[cfg(scc_mc)]
+            link.metadata.hash_access.store(0, Relaxed);
             self.write_cell(&link.metadata.partial_hash_array[entry_ptr.index], |h| {
                 *h = u8::from(guard.epoch());
             });
@@ -240,6 +247,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             removed_bitmap |= 1_u32 << entry_ptr.index;
             link.metadata.removed_bitmap.store(removed_bitmap, Release);
         } else {
+            #[cfg(scc_mc)]
+            self.metadata.hash_access.store(0, Relaxed);
             self.write_cell(&self.metadata.partial_hash_array[entry_ptr.index], |h| {
                 *h = u8::from(guard.epoch());
             });
@@ -708,6 +717,11 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             metadata.occupied_bitmap.load(Relaxed)
         };
 
+        #[cfg(scc_mc)]
+        if TYPE == INDEX {
+            metadata.hash_access.load(Relaxed);
+        }
+
         // Expect that the loop is vectorized by the compiler.
         for i in 0..LEN {
             if *Self::read_cell(&metadata.partial_hash_array[i]) != Self::partial_hash(hash) {
@@ -1247,6 +1261,8 @@ impl<K, V> LinkedBucket<K, V> {
                 occupied_bitmap: AtomicU32::default(),
                 removed_bitmap: AtomicU32::default(),
                 partial_hash_array: Default::default(),
+                #[cfg(scc_mc)]
+                hash_access: AtomicU32::new(0),
             },
             data_block: unsafe {
                 #[allow(clippy::uninit_assumed_init)]
-- 
2.43.0


From 55ea2997aca4b5f85b02471c15c693c61638ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 14/16] fix: HashIndex lookups could miss an entry that was
 being updated

A lock-free reader that had searched the slot taken by the new entry, or had loaded the bitmaps,
before the new entry was inserted did not find the existing entry either if it was marked removed
meanwhile (the partial hash is overwritten when an entry is marked removed).
---
 src/hash_index.rs        |  2 +-
 src/hash_table/bucket.rs | 43 ++++++++++++++++++++++++++++++++++------
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 0853640..f496224 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1898,7 +1898,7 @@ where
         let guard = Guard::new();
         self.locked_bucket
             .writer
-            .mark_removed(&mut self.entry_ptr, &guard);
+            .mark_replaced(&mut self.entry_ptr, &guard);
         self.locked_bucket.set_has_garbage(&guard);
         self.entry_ptr = entry_ptr;
     }
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index d14b310..217f321 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -5,10 +5,10 @@ use std::ops::{Deref, Index};
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
 #[cfg(not(scc_mc))]
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
+use std::sync::atomic::{AtomicPtr, AtomicU32, fence};
 
 #[cfg(scc_mc)]
-use loom::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
+use loom::sync::atomic::{AtomicPtr, AtomicU32, fence};
 use saa::Lock;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
 
@@ -22,7 +22,9 @@ use crate::async_helper::AsyncGuard;
 #[repr(align(64))]
 pub struct Bucket<K, V, L: LruList, const TYPE: char> {
     /// Number of entries in the [`Bucket`].
-    len: AtomicUsize,
+    len: AtomicU32,
+    /// Number of entries that were replaced with a new one if `TYPE = INDEX`.
+    num_replaced: AtomicU32,
     /// [`Bucket`] metadata.
     metadata: Metadata<K, V, BUCKET_LEN>,
     /// Reader-writer lock.
@@ -127,7 +129,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     #[cfg(any(test, feature = "loom"))]
     pub fn new() -> Self {
         Self {
-            len: AtomicUsize::new(0),
+            len: AtomicU32::new(0),
+            num_replaced: AtomicU32::new(0),
             rw_lock: Lock::default(),
             metadata: Metadata {
                 link: AtomicShared::default(),
@@ -144,7 +147,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     /// Returns the number of occupied and reachable slots in the [`Bucket`].
     #[inline]
     pub(crate) fn len(&self) -> usize {
-        self.len.load(Relaxed)
+        self.len.load(Relaxed) as usize
     }
 
     /// Reserves memory for insertion and then constructs the key-value pair in-place.
@@ -261,6 +264,17 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         }
     }
 
+    /// Marks the entry removed from the [`Bucket`] after a new entry with the same key was inserted.
+    #[inline]
+    pub(crate) fn mark_replaced(&self, entry_ptr: &mut EntryPtr<K, V, TYPE>, guard: &Guard) {
+        // A reader may fail to find both the new entry and the existing entry, therefore the change
+        // needs to be announced before the existing entry becomes unreachable.
+        self.num_replaced
+            .store(self.num_replaced.load(Relaxed).wrapping_add(1), Release);
+        fence(Release);
+        self.mark_removed(entry_ptr, guard);
+    }
+
     /// Evicts the least recently used entry if the [`Bucket`] is full.
     #[inline]
     pub(crate) fn evict_lru_head(
@@ -639,7 +653,12 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     where
         Q: Equivalent<K> + ?Sized,
     {
-        if self.len() != 0 {
+        let mut num_replaced = if TYPE == INDEX {
+            self.num_replaced.load(Acquire)
+        } else {
+            0
+        };
+        while self.len() != 0 {
             if let Some((entry, _)) =
                 Self::search_data_block(&self.metadata, data_block_ref(data_block), key, hash)
             {
@@ -655,6 +674,18 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 }
                 link_ptr = link.metadata.load_link();
             }
+
+            if TYPE != INDEX {
+                break;
+            }
+
+            // The entry may have been replaced with a new one in a slot that was already searched.
+            fence(Acquire);
+            let current_num_replaced = self.num_replaced.load(Acquire);
+            if num_replaced == current_num_replaced {
+                break;
+            }
+            num_replaced = current_num_replaced;
         }
 
         None
-- 
2.43.0


From f948d5062fef495063b718933f98c4eea2c21685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 15/16] fix: TreeIndex::remove_range cut entries off from scans
 if a node next to the range was retired concurrently

---
 src/tree_index/internal_node.rs | 44 ++++++++++++++++++++++-----------
 src/tree_index/leaf_node.rs     |  5 ++++
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 6653a17..867fc30 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -441,7 +441,7 @@ where
         debug_assert!(valid_lower_max_leaf.is_none() || start_unbounded);
         debug_assert!(valid_lower_max_leaf.is_none() || valid_upper_min_node.is_none());
 
-        let Some(_lock) = Locker::try_lock(self) else {
+        let Some(lock) = Locker::try_lock(self) else {
             async_wait.try_wait(&self.lock);
             return Err(());
         };
@@ -511,26 +511,42 @@ where
             }
         }
 
+        // Leaves cannot be connected through a retired child.
+        if [lower_border.map(|(_, n)| n), upper_border]
+            .into_iter()
+            .flatten()
+            .any(|n| n.load(Acquire, guard).as_ref().is_some_and(Node::retired))
+        {
+            drop(lock);
+            self.coalesce(guard);
+            return Err(());
+        }
+
         if let Some(lower_leaf) = valid_lower_max_leaf {
             // It is currently in the middle of a recursive call: pass `lower_leaf` to connect leaves.
             debug_assert!(start_unbounded && lower_border.is_none() && upper_border.is_some());
-            if let Some(upper_node) = upper_border.and_then(|n| n.load(Acquire, guard).as_ref()) {
-                upper_node.remove_range(range, true, Some(lower_leaf), None, async_wait, guard)?;
-            }
+            let Some(upper_node) = upper_border.and_then(|n| n.load(Acquire, guard).as_ref()) else {
+                // The node was retired in the meantime.
+                return Err(());
+            };
+            upper_node.remove_range(range, true, Some(lower_leaf), None, async_wait, guard)?;
         } else if let Some(upper_node) = valid_upper_min_node {
             // Pass `upper_node` to the lower leaf to connect leaves, so that this method can be
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
-            if let Some(lower_node) = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref()) {
-                lower_node.remove_range(
-                    range,
-                    start_unbounded,
-                    None,
-                    Some(upper_node),
-                    async_wait,
-                    guard,
-                )?;
-            }
+            let Some(lower_node) = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref())
+            else {
+                // The node was retired in the meantime.
+                return Err(());
+            };
+            lower_node.remove_range(
+                range,
+                start_unbounded,
+                None,
+                Some(upper_node),
+                async_wait,
+                guard,
+            )?;
             if let Some((Some(index), lower_node)) = lower_border {
                 self.children.remove_unchecked(index);
                 self.unbounded_child
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 90b2ca7..83e9c6a 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -489,6 +489,11 @@ where
             unbounded.remove_range(range);
         }
 
+        if (valid_lower_max_leaf.is_some() || valid_upper_min_node.is_some()) && self.retired() {
+            // The node was retired in the meantime, and it has no leaf to connect.
+            return Err(());
+        }
+
         if let Some(valid_lower_max_leaf) = valid_lower_max_leaf {
             // Connect the specified leaf with the first valid leaf.
             if first_valid_leaf.is_none() {
-- 
2.43.0


From f7a011d5c95bb9bc308b301598134ea6b23bbc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 16/16] fix: entries below the range were transiently
 unreachable during TreeIndex::remove_range

---
 src/tree_index/internal_node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 867fc30..5b5bff7 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -548,9 +548,10 @@ where
                 guard,
             )?;
             if let Some((Some(index), lower_node)) = lower_border {
-                self.children.remove_unchecked(index);
+                // The node must be reachable at any time: connect it before removing its key.
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
+                self.children.remove_unchecked(index);
                 lower_node.swap((None, Tag::None), Release);
             }
         } else {
-- 
2.43.0


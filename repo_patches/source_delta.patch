From 0e42443efddb2b9338830fcafba459832729a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 01/17] Hook: narrower tree nodes under cfg(librrb_sim_narrow),
 off by default

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0968e58..0a2d875 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,6 +30,7 @@
 #![deny(missing_docs)]
 #![cfg_attr(debug_assertions, allow(missing_docs))]
 #![cfg_attr(feature = "may_dangle", feature(dropck_eyepatch))]
+#![allow(unexpected_cfgs)]
 
 mod circular;
 mod node_impls;
@@ -51,8 +52,14 @@ use archery::{ArcK, RcK};
 use node_impls::basic::{Internal, Leaf};
 
 /// The width of the RRB tree nodes. The maximum number of elements in a leaf or internal node.
+#[cfg(not(librrb_sim_narrow))]
 pub const RRB_WIDTH: usize = 64;
 
+/// The width of the RRB tree nodes in simulation builds (`--cfg librrb_sim_narrow`), small enough
+/// for tall trees to occur in short histories.
+#[cfg(librrb_sim_narrow)]
+pub const RRB_WIDTH: usize = 8;
+
 /// Represents a side of a container.
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum Side {
-- 
2.43.0


From b296e952f075b3f1bb2a93b9a82477edc8be3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 02/17] fix: split a narrowed read focus relative to its start

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0e2b6cc..9c7fd12 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -364,8 +364,9 @@ where
         if idx >= self.len() {
             panic!("Split is out of range")
         }
-        let first_range = self.range.start..idx;
-        let second_range = idx..self.range.end;
+        let split = self.range.start + idx;
+        let first_range = self.range.start..split;
+        let second_range = split..self.range.end;
         let first = Focus::narrowed_tree(self.tree, first_range);
         let second = Focus::narrowed_tree(self.tree, second_range);
         (first, second)
-- 
2.43.0


From b4835a8eb240e2852570a616d7a08d5d493e6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 03/17] fix: check the range given to narrow against the focus,
 not the vector

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 9c7fd12..4b032cb 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -334,7 +334,7 @@ where
             Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.range.end {
+        if range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From b48786e30159a63284a40b01891949c3c4c8606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 04/17] fix: an empty read focus must not descend into an empty
 root

---
 src/focus.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 4b032cb..6f10a79 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -179,7 +179,9 @@ where
             let range_start = range_end;
             range_end = range_start + node.len();
 
-            if range.start < range_end && range.end > range_start {
+            // An empty range lies in no node, any node with elements in it will do.
+            let overlaps = range.start < range_end && range.end > range_start;
+            if overlaps || (range.start == range.end && range_start < range_end) {
                 focus_range = range_start..range_end;
                 spine_position = node_position;
                 focus_node = node;
-- 
2.43.0


From 3cd4002639051211688e419d7e93cf36d910f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 05/17] fix: forget the leaf range when a mutable focus leaves
 a leaf root

---
 src/focus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 6f10a79..7056ad8 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -707,10 +707,9 @@ where
     fn drop_path_nodes(&mut self) {
         self.root = None;
         // panic!("rawr {}", self.path.len());
-        if self.leaf.take().is_some() {
-            // println!("dropping leaf {:?} ", self.leaf_range);
-            self.leaf_range = 0..0;
-        }
+        // The range must go even without a leaf, a borrowed root that is a leaf sets it as well.
+        self.leaf.take();
+        self.leaf_range = 0..0;
         while self.path.pop().is_some() {
             // println!("dropping internal {:?} ", p.1);
         }
-- 
2.43.0


From 7a6cd8511f9227b760463f00882e72b9f1e4e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 06/17] fix: release the sizes a mutable focus borrowed when it
 is dropped

---
 src/focus.rs                      | 5 ++++-
 src/node_impls/annotated_basic.rs | 8 ++++++++
 src/node_impls/basic.rs           | 5 +++++
 src/node_traits.rs                | 3 +++
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 7056ad8..076b10a 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -649,7 +649,10 @@ where
         self.drop_path_nodes();
         self.drop_borrowed_nodes();
         while let Some(node) = self.nodes.pop() {
-            std::mem::forget(node);
+            match node {
+                BorrowedNode::Internal(internal) => internal.discard(),
+                BorrowedNode::Leaf(leaf) => std::mem::forget(leaf),
+            }
         }
         unsafe {
             ManuallyDrop::drop(&mut self.nodes);
diff --git a/src/node_impls/annotated_basic.rs b/src/node_impls/annotated_basic.rs
index 124b56d..c8ae128 100644
--- a/src/node_impls/annotated_basic.rs
+++ b/src/node_impls/annotated_basic.rs
@@ -471,6 +471,14 @@ impl<
         self.get_child_mut_at_slot(index)
     }
 
+    fn discard(self) {
+        // Only the sizes are owned, and the sum must not be written back.
+        let node = std::mem::ManuallyDrop::new(self);
+        unsafe {
+            drop(std::ptr::read(&node.sizes));
+        }
+    }
+
     fn pop_child(&mut self, side: Side) -> Option<BorrowedNode<Self::Concrete>> {
         let child = self.get_child_mut_at_side(side)?.0.borrow_node();
         if side == Side::Front {
diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 9aaf30a..f62e9ff 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -318,6 +318,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
         self.get_child_mut_at_slot(index)
     }
 
+    fn discard(self) {
+        // Only the sizes are owned.
+        drop(self);
+    }
+
     fn pop_child(&mut self, side: Side) -> Option<BorrowedNode<Self::Concrete>> {
         let child = self.get_child_mut_at_side(side)?.0.borrow_node();
         if side == Side::Front {
diff --git a/src/node_traits.rs b/src/node_traits.rs
index 2223114..b0e9008 100644
--- a/src/node_traits.rs
+++ b/src/node_traits.rs
@@ -178,6 +178,9 @@ pub trait BorrowedInternalTrait: Clone + std::fmt::Debug {
     /// Logically pops a child from the node. The child is then returned.
     fn pop_child(&mut self, side: Side) -> Option<BorrowedNode<Self::Concrete>>;
 
+    /// Releases the borrowed node, leaving the node it was borrowed from as it is.
+    fn discard(self);
+
     /// Undoes the popping that has occurred via a call to `pop_child`.
     fn unpop_child(&mut self, side: Side);
 
-- 
2.43.0


From f1d62ee5be0bccadc49a76a23e063f61d2385f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 07/17] fix: include the last position of an inclusive range in
 searches

---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index a8f0cd8..e7c4081 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1455,7 +1455,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1587,7 +1587,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
-- 
2.43.0


From 5e611ba7c701fc17b7c29aeb116c1f297fb4f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 08/17] fix: searching an empty range finds nothing instead of
 panicking

---
 src/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index e7c4081..4812617 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1592,6 +1592,10 @@ where
             Bound::Unbounded => self.len,
         };
 
+        if start >= end {
+            return Err(start);
+        }
+
         let avg = |x: usize, y: usize| (x / 2) + (y / 2) + (x % 2 + y % 2) / 2;
         let mut focus = self.focus();
 
-- 
2.43.0


From 2f659180f46c63f8fc0717f5f16f8b8b3e11a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:53 +0000
Subject: [PATCH 09/17] fix: keep the items cloned so far when cloning a buffer
 panics

---
 src/circular.rs | 38 +++++++-------------------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/src/circular.rs b/src/circular.rs
index 0dc95a2..3313e4b 100644
--- a/src/circular.rs
+++ b/src/circular.rs
@@ -508,38 +508,14 @@ impl<A: Debug> Debug for CircularBuffer<A> {
 
 impl<A: Clone> Clone for CircularBuffer<A> {
     fn clone(&self) -> Self {
-        let mut data: [mem::MaybeUninit<A>; RRB_WIDTH] =
-            unsafe { mem::MaybeUninit::uninit().assume_init() };
-        let cloner = |x: &mem::MaybeUninit<A>| unsafe {
-            let data_ptr = x.as_ptr();
-            let new_data = (&*data_ptr).clone();
-            mem::MaybeUninit::new(new_data)
-        };
-        let back = (self.front + self.len) % RRB_WIDTH;
-
-        if self.is_full() {
-            for (i, x) in self.data.iter().enumerate() {
-                data[i] = cloner(x);
-            }
-        } else if back >= self.front {
-            let len = self.len();
-            for (i, x) in self.data.iter().enumerate().skip(self.front).take(len) {
-                data[i] = cloner(x);
-            }
-        } else {
-            for (i, x) in self.data.iter().enumerate().take(back) {
-                data[i] = cloner(x);
-            }
-            for (i, x) in self.data.iter().enumerate().skip(self.front) {
-                data[i] = cloner(x);
-            }
-        }
-
-        CircularBuffer {
-            len: self.len,
-            front: self.front,
-            data,
+        // The result owns every item as soon as it is cloned, so that none is lost if a later clone
+        // panics.
+        let mut result = CircularBuffer::new();
+        result.front = self.front;
+        for item in self {
+            result.push_back(item.clone());
         }
+        result
     }
 }
 
-- 
2.43.0


From e157817a45bec9c9d0069dd469d7007aa2d2a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:21 +0000
Subject: [PATCH 10/17] fix: sort equal elements in one go when they are the
 smallest

---
 src/sort.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5515318..4aa4a10 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -102,9 +102,23 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather the elements equal to it
+    // behind it and just call sort again with the rest of the vector.
     if less_count == 0 {
+        let mut gathered = 0;
+        if equal_count != 0 {
+            for index in 0..rest.len() {
+                if comparator(rest.index(index), first.index(0)) == cmp::Ordering::Equal {
+                    if index != gathered {
+                        mem::swap(first.index(0), rest.index(index));
+                        mem::swap(first.index(0), rest.index(gathered));
+                        mem::swap(first.index(0), rest.index(index));
+                    }
+                    gathered += 1;
+                }
+            }
+        }
+        let (_, mut rest) = rest.split_at(gathered);
         do_single_sort(&mut rest, rng, comparator);
         return;
     }
@@ -280,9 +294,28 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather the elements equal to it
+    // behind it and just call sort again with the rest of the vector.
     if less_count == 0 {
+        let mut gathered = 0;
+        if equal_count != 0 {
+            for index in 0..rest_focus.len() {
+                if comparator(rest_focus.index(index), first_focus.index(0)) == cmp::Ordering::Equal
+                {
+                    if index != gathered {
+                        mem::swap(first_focus.index(0), rest_focus.index(index));
+                        mem::swap(first_dual.index(0), rest_dual.index(index));
+                        mem::swap(first_focus.index(0), rest_focus.index(gathered));
+                        mem::swap(first_dual.index(0), rest_dual.index(gathered));
+                        mem::swap(first_focus.index(0), rest_focus.index(index));
+                        mem::swap(first_dual.index(0), rest_dual.index(index));
+                    }
+                    gathered += 1;
+                }
+            }
+        }
+        let (_, mut rest_focus) = rest_focus.split_at(gathered);
+        let (_, mut rest_dual) = rest_dual.split_at(gathered);
         do_dual_sort(&mut rest_focus, &mut rest_dual, rng, comparator);
         return;
     }
-- 
2.43.0


From 078a1941b6689108e02e02af51cdd8310660342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 11/17] fix: partitioning makes progress whatever the
 comparator answers

---
 src/sort.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sort.rs b/src/sort.rs
index 4aa4a10..77719ac 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -188,6 +188,7 @@ pub(crate) fn do_single_sort<R, F, Internal>(
         if let Some(swap_side) = equal_swap_side {
             // One of the sides is equal to the pivot, advance the pivot
             if swap_side == cmp::Ordering::Less {
+                equal_position += 1;
                 while comparator(
                     less_focus.index(less_position),
                     equal_focus.index(equal_position),
@@ -203,6 +204,7 @@ pub(crate) fn do_single_sort<R, F, Internal>(
                     equal_focus.index(equal_position),
                 );
             } else {
+                equal_position += 1;
                 while comparator(
                     greater_focus.index(greater_position),
                     equal_focus.index(equal_position),
@@ -242,6 +244,10 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             );
             less_position += 1;
             greater_position += 1;
+        } else {
+            // Only an inconsistent comparator can leave items out of place on one side alone, there
+            // is nothing to swap them with.
+            break;
         }
     }
 
@@ -399,6 +405,7 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
         if let Some(swap_side) = equal_swap_side {
             // One of the sides is equal to the pivot, advance the pivot
             if swap_side == cmp::Ordering::Less {
+                equal_position += 1;
                 while comparator(
                     less_focus.index(less_position),
                     equal_focus.index(equal_position),
@@ -418,6 +425,7 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
                     equal_dual.index(equal_position),
                 );
             } else {
+                equal_position += 1;
                 while comparator(
                     greater_focus.index(greater_position),
                     equal_focus.index(equal_position),
@@ -465,6 +473,10 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             );
             less_position += 1;
             greater_position += 1;
+        } else {
+            // Only an inconsistent comparator can leave items out of place on one side alone, there
+            // is nothing to swap them with.
+            break;
         }
     }
 
-- 
2.43.0


From bfe1607b9647b3a35a52cceb6e95b3a765a301ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 12/17] fix: keep the parts still to be sorted off the call
 stack

A part was sorted by a recursive call, one for each partitioning step, and a step may set aside a
single element: a comparator that is not a total order overflowed the stack and aborted the
process, instead of leaving the elements in some order.
---
 src/sort.rs | 107 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 29 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 77719ac..af40e49 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -3,6 +3,7 @@ use crate::node_traits::{InternalTrait, LeafTrait};
 use rand_core::RngCore;
 use std::cmp;
 use std::mem;
+use std::ops::Range;
 
 // pub(crate) fn sort_multiple<'a>(
 //     foci: &mut [FocusMut<'a, dyn InternalTrait, dyn Leaf, dyn BorrowedInternal>],
@@ -77,9 +78,36 @@ pub(crate) fn do_single_sort<R, F, Internal>(
     ) -> cmp::Ordering,
     Internal: InternalTrait,
 {
-    if focus.len() <= 1 {
-        return;
+    // The parts that are still to be sorted. There can be as many as there are elements, so this
+    // does not recurse.
+    let mut parts = vec![0..focus.len()];
+    while let Some(part) = parts.pop() {
+        if part.len() <= 1 {
+            continue;
+        }
+        let (mut front, _) = focus.split_at(part.end);
+        let (_, mut part_focus) = front.split_at(part.start);
+        let (less, greater) = single_partition(&mut part_focus, rng, comparator);
+        parts.push(part.start + greater.start..part.start + greater.end);
+        parts.push(part.start + less.start..part.start + less.end);
     }
+}
+
+/// Partitions a focus of at least 2 elements. Returns the ranges of it that are still to be sorted.
+fn single_partition<R, F, Internal>(
+    focus: &mut FocusMut<Internal>,
+    rng: &mut R,
+    comparator: &F,
+) -> (Range<usize>, Range<usize>)
+where
+    R: RngCore,
+    F: Fn(
+        &<Internal::Leaf as LeafTrait>::Item,
+        &<Internal::Leaf as LeafTrait>::Item,
+    ) -> cmp::Ordering,
+    Internal: InternalTrait,
+{
+    let len = focus.len();
 
     // We know there are at least 2 elements here
     let pivot_index = rng.next_u64() as usize % focus.len();
@@ -103,7 +131,7 @@ pub(crate) fn do_single_sort<R, F, Internal>(
         }
     }
     // If by accident we picked the minimum element as a pivot, we gather the elements equal to it
-    // behind it and just call sort again with the rest of the vector.
+    // behind it and just sort the rest of the vector.
     if less_count == 0 {
         let mut gathered = 0;
         if equal_count != 0 {
@@ -118,9 +146,7 @@ pub(crate) fn do_single_sort<R, F, Internal>(
                 }
             }
         }
-        let (_, mut rest) = rest.split_at(gathered);
-        do_single_sort(&mut rest, rng, comparator);
-        return;
+        return (0..0, 1 + gathered..len);
     }
 
     // We know here that there is at least one item before the pivot, so we move the minimum to the
@@ -251,11 +277,11 @@ pub(crate) fn do_single_sort<R, F, Internal>(
         }
     }
 
-    // Now we have partitioned both sides correctly, we just have to recurse now
-    do_single_sort(&mut less_focus, rng, comparator);
-    if !greater_focus.is_empty() {
-        do_single_sort(&mut greater_focus, rng, comparator);
-    }
+    // Now we have partitioned both sides correctly, they just have to be sorted now
+    (
+        1..1 + less_count,
+        1 + less_count + equal_count..len,
+    )
 }
 
 pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
@@ -272,9 +298,41 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
     Internal1: InternalTrait,
     Internal2: InternalTrait,
 {
-    if focus.len() <= 1 {
-        return;
+    // The parts that are still to be sorted. There can be as many as there are elements, so this
+    // does not recurse.
+    let mut parts = vec![0..focus.len()];
+    while let Some(part) = parts.pop() {
+        if part.len() <= 1 {
+            continue;
+        }
+        let (mut front_focus, _) = focus.split_at(part.end);
+        let (mut front_dual, _) = dual.split_at(part.end);
+        let (_, mut part_focus) = front_focus.split_at(part.start);
+        let (_, mut part_dual) = front_dual.split_at(part.start);
+        let (less, greater) = dual_partition(&mut part_focus, &mut part_dual, rng, comparator);
+        parts.push(part.start + greater.start..part.start + greater.end);
+        parts.push(part.start + less.start..part.start + less.end);
     }
+}
+
+/// Partitions a focus of at least 2 elements, along with a second one. Returns the ranges of them
+/// that are still to be sorted.
+fn dual_partition<R, F, Internal1, Internal2>(
+    focus: &mut FocusMut<Internal1>,
+    dual: &mut FocusMut<Internal2>,
+    rng: &mut R,
+    comparator: &F,
+) -> (Range<usize>, Range<usize>)
+where
+    R: RngCore,
+    F: Fn(
+        &<Internal1::Leaf as LeafTrait>::Item,
+        &<Internal1::Leaf as LeafTrait>::Item,
+    ) -> cmp::Ordering,
+    Internal1: InternalTrait,
+    Internal2: InternalTrait,
+{
+    let len = focus.len();
 
     // We know there are at least 2 elements here
     let pivot_index = rng.next_u64() as usize % focus.len();
@@ -301,7 +359,7 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
         }
     }
     // If by accident we picked the minimum element as a pivot, we gather the elements equal to it
-    // behind it and just call sort again with the rest of the vector.
+    // behind it and just sort the rest of the vector.
     if less_count == 0 {
         let mut gathered = 0;
         if equal_count != 0 {
@@ -320,10 +378,7 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
                 }
             }
         }
-        let (_, mut rest_focus) = rest_focus.split_at(gathered);
-        let (_, mut rest_dual) = rest_dual.split_at(gathered);
-        do_dual_sort(&mut rest_focus, &mut rest_dual, rng, comparator);
-        return;
+        return (0..0, 1 + gathered..len);
     }
 
     // We know here that there is at least one item before the pivot, so we move the minimum to the
@@ -480,17 +535,11 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
         }
     }
 
-    // Now we have partitioned both sides correctly, we just have to recurse now
-    do_dual_sort(&mut less_focus, &mut less_dual, rng, comparator);
-    if !greater_focus.is_empty() {
-        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
-    }
-    //     });
-    // });
-    // });
-    // });
-    // });
-    // });
+    // Now we have partitioned both sides correctly, they just have to be sorted now
+    (
+        1..1 + less_count,
+        1 + less_count + equal_count..len,
+    )
 }
 
 #[allow(clippy::cognitive_complexity)]
-- 
2.43.0


From 6a06955abd0cad282a463c83c90e7ba67b914e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 13/17] fix: a push or pop interrupted by a panic is either
 done or undone

Cloning an item may panic while a push or pop restructures the tree: the nodes already taken out of
it were lost, or the item had been removed without the length being updated, and the handle was
unusable afterwards. The nodes now stay in the tree until the sharing of their children is done,
and the length follows the leaf at once.
---
 src/vector.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 4812617..8e7f1df 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -547,9 +547,11 @@ where
             let new_root = NodeRc::Internal(Internal::InternalEntry::new(
                 Internal::empty_internal(self.root.level() + 1),
             ));
-            let mut new_node = mem::replace(&mut self.root, new_root);
-            let mut other_new_node = new_node.new_empty();
-            new_node.share_children_with(&mut other_new_node, side.negate(), RRB_WIDTH / 2);
+            let mut other_new_node = self.root.new_empty();
+            // This may panic as it may have to clone items, so the tree must still be intact here.
+            self.root
+                .share_children_with(&mut other_new_node, side.negate(), RRB_WIDTH / 2);
+            let new_node = mem::replace(&mut self.root, new_root);
             spine.push(new_node);
             other_spine.push(other_new_node);
         } else if self.root.slots() == 0 {
@@ -561,6 +563,11 @@ where
     /// Pushes an item into a side leaf of the tree. This fixes up some invariants in the case that
     /// the root sits directly above the leaves.
     fn push_side(&mut self, side: Side, item: <Internal::Leaf as LeafTrait>::Item) {
+        if self.spine_ref(side).len() == 1 {
+            // There is nothing to do, unless a panic interrupted this at the end of the previous
+            // operation.
+            self.fixup_spine_tops();
+        }
         if self.leaf_ref(side).load().free_space() == 0 {
             self.complete_leaf(side);
         }
@@ -698,10 +705,11 @@ where
                 // Part 1) of invariant 5 is broken, we merge into a single node decreasing the
                 // tree's height by 1. Invariant 5 might be broken with the new root so we need to
                 // continue checking.
-                let mut left_spine_top = self.left_spine.pop().unwrap();
-                let mut right_spine_top = self.right_spine.pop().unwrap();
-                left_spine_top.share_children_with(&mut right_spine_top, Side::Back, RRB_WIDTH);
-                self.root = right_spine_top;
+                // Sharing may panic as it may have to clone items, so the tops only leave the spines
+                // afterwards.
+                left_spine_top.share_children_with(right_spine_top, Side::Back, RRB_WIDTH);
+                self.left_spine.pop().unwrap();
+                self.root = self.right_spine.pop().unwrap();
             } else if difference >= 2 {
                 // Part 2) of invariant 5 is broken, we might need to share children between the
                 // left and right spines. We are also guaranteed to have invariant 5 fulfilled
@@ -724,10 +732,16 @@ where
     /// the root sits directly above the leaves.
     fn pop_side(&mut self, side: Side) -> Option<<Internal::Leaf as LeafTrait>::Item> {
         debug_assert_eq!(self.left_spine.len(), self.right_spine.len());
+        if self.spine_ref(side).len() == 1 {
+            // There is nothing to do, unless a panic interrupted this at the end of the previous
+            // operation.
+            self.fixup_spine_tops();
+        }
         if self.spine_ref(side).is_empty() {
             if !self.root.is_empty() {
+                let item = self.root.leaf_mut().load_mut().pop(side);
                 self.len -= 1;
-                Some(self.root.leaf_mut().load_mut().pop(side))
+                Some(item)
             } else {
                 None
             }
@@ -746,6 +760,7 @@ where
                     .leaf_mut(),
             };
             let item = leaf.load_mut().pop(side);
+            self.len -= 1;
 
             if leaf.load().is_empty() {
                 self.empty_leaf(side);
@@ -753,7 +768,6 @@ where
                 self.fixup_spine_tops();
             }
 
-            self.len -= 1;
             Some(item)
         }
     }
-- 
2.43.0


From ebbe48bf91b4329d8db2b182b198fb16f31373af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:28 +0000
Subject: [PATCH 14/17] fix: keep the tree depth logarithmic when vectors are
 joined again and again

---
 src/vector.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 8e7f1df..cd67df9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -249,7 +249,7 @@
 //! [Vector::singleton]: ./struct.InternalVector.html#method.singleton
 
 use crate::focus::{Focus, FocusMut};
-use crate::node_traits::{Entry, InternalTrait, LeafTrait, NodeRc};
+use crate::node_traits::{Entry, InternalTrait, LeafTrait, NodeRc, NodeRef};
 use crate::sort::{do_dual_sort, do_single_sort};
 use crate::{Side, RRB_WIDTH};
 use rand_core::SeedableRng;
@@ -670,6 +670,33 @@ where
         self.fixup_spine_tops();
     }
 
+    /// Moves nodes from the given side of the tree back into the empty nodes of that side's spine.
+    /// A concatenation only balances the nodes that are in the spines. A spine node that is empty is
+    /// skipped, and what was below it becomes another child of the node above, so that repeated
+    /// concatenations would keep growing the tree.
+    fn refill_spine(&mut self, side: Side) {
+        let spine = match side {
+            Side::Front => &mut self.left_spine,
+            Side::Back => &mut self.right_spine,
+        };
+        for level in (1..spine.len()).rev() {
+            if spine[level].slots() != 0 {
+                continue;
+            }
+            let parent = spine
+                .get_mut(level + 1)
+                .unwrap_or(&mut self.root)
+                .internal_mut();
+            match parent.load().get_child_ref_at_side(side) {
+                // A full node has no space for its neighbour, it can stay where it is.
+                Some((NodeRef::Internal(child), _)) if child.load().free_slots() != 0 => (),
+                _ => break,
+            }
+            let child = parent.load_mut().pop_child(side);
+            spine[level] = child;
+        }
+    }
+
     /// Fixes up the top of the spines. Certain operations break some invariants that we use to keep
     /// the tree balanced. This repeatedly fixes up the tree to fulfill the invariants.
     fn fixup_spine_tops(&mut self) {
@@ -1019,6 +1046,10 @@ where
         debug_assert_eq!(other.left_spine.len(), other.right_spine.len());
         debug_assert_eq!(self.right_spine.len(), other.left_spine.len());
 
+        // Balancing below only looks at the spines
+        self.refill_spine(Side::Back);
+        other.refill_spine(Side::Front);
+
         // More efficient to work from front to back here, but we need to remove elements
         // We reverse to make this more efficient
         self.right_spine.reverse();
-- 
2.43.0


From 603c47151ec72d0a5bd436e65b6cf7fb7025456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:28 +0000
Subject: [PATCH 15/17] fix: Focus::get returns None for any index beyond a
 narrowed focus

---
 src/focus.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 076b10a..b49c133 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -262,8 +262,8 @@ where
     /// assert_eq!(focus.get(3), None);
     /// ```
     pub fn get(&mut self, idx: usize) -> Option<&<Internal::Leaf as LeafTrait>::Item> {
-        let new_idx = idx + self.range.start;
-        if self.range.contains(&new_idx) {
+        if idx < self.len() {
+            let new_idx = idx + self.range.start;
             if !self.focus_range.contains(&new_idx) {
                 self.refocus(new_idx);
             }
-- 
2.43.0


From 741774aaccc2c26dc6a075c00d30e9aac496f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:58 +0000
Subject: [PATCH 16/17] fix: splitting a node no longer walks both parts in
 release builds

---
 src/node_impls/basic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index f62e9ff..3c7fb86 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -862,8 +862,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
             result.push_child(Side::Front, subresult);
         }
 
-        self.debug_check_invariants(original_position, self.level());
-        result.debug_check_invariants(original_len - original_position, result.level());
+        if cfg!(debug_assertions) {
+            // This walks both parts completely
+            self.debug_check_invariants(original_position, self.level());
+            result.debug_check_invariants(original_len - original_position, result.level());
+        }
         result
     }
 
-- 
2.43.0


From 11bf7f6141c851aa63c086595d1bf191083cc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:14 +0000
Subject: [PATCH 17/17] fix: join small nodes that become neighbours when
 vectors are joined

Packing a node only fills its children, the nodes below stay as small as they are. Moving the same
few elements from one end to the other again and again left a tree of leaves of that size.
---
 src/node_impls/annotated_basic.rs |  1 +
 src/node_impls/basic.rs           |  1 +
 src/node_traits.rs                | 33 ++++++++++++++++++++++++++++++-
 src/vector.rs                     |  1 +
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/node_impls/annotated_basic.rs b/src/node_impls/annotated_basic.rs
index c8ae128..b2a21a8 100644
--- a/src/node_impls/annotated_basic.rs
+++ b/src/node_impls/annotated_basic.rs
@@ -918,6 +918,7 @@ impl<
                         continue;
                     } else {
                         let (write, read) = children.pair_mut(write_position, read_position);
+                        write.load_mut().join_boundary(&mut *read.load_mut());
                         read.load_mut().share_children_with(
                             &mut *write.load_mut(),
                             Side::Front,
diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 3c7fb86..556beb8 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -656,6 +656,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
                         continue;
                     } else {
                         let (write, read) = children.pair_mut(write_position, read_position);
+                        write.load_mut().join_boundary(&mut *read.load_mut());
                         read.load_mut().share_children_with(
                             &mut *write.load_mut(),
                             Side::Front,
diff --git a/src/node_traits.rs b/src/node_traits.rs
index b0e9008..dd9de6b 100644
--- a/src/node_traits.rs
+++ b/src/node_traits.rs
@@ -1,4 +1,4 @@
-use crate::Side;
+use crate::{Side, RRB_WIDTH};
 use std::fmt::Debug;
 use std::ops::{Deref, DerefMut, Range};
 
@@ -218,6 +218,28 @@ pub trait InternalTrait: Clone + std::fmt::Debug {
         len: usize,
     ) -> usize;
 
+    /// Moves the children of the first child of `right` into the last child of `self` if they all
+    /// fit. Nodes that become neighbours are joined this way, packing them alone leaves the nodes
+    /// below as small as they are.
+    fn join_boundary(&mut self, right: &mut Self) {
+        let fits = match (
+            self.get_child_ref_at_side(Side::Back),
+            right.get_child_ref_at_side(Side::Front),
+        ) {
+            (Some((left_child, _)), Some((right_child, _))) => {
+                left_child.slots() + right_child.slots() <= RRB_WIDTH
+            }
+            _ => false,
+        };
+        if fits {
+            let mut left_child = self.pop_child(Side::Back);
+            let mut right_child = right.pop_child(Side::Front);
+            left_child.join_boundary(&mut right_child);
+            right_child.share_children_with(&mut left_child, Side::Front, RRB_WIDTH);
+            self.push_child(Side::Back, left_child);
+        }
+    }
+
     /// Packs the children of the to the left of the node so that all but the last is dense.
     fn pack_children(&mut self);
 
@@ -382,6 +404,15 @@ where
         }
     }
 
+    /// Joins the children of the two nodes that are next to each other, see
+    /// `InternalTrait::join_boundary`. Leaves have no children that could be joined.
+    pub fn join_boundary(&mut self, right: &mut Self) {
+        if let NodeRc::Internal(left_internal) = self {
+            let mut right_internal = right.internal_mut().load_mut();
+            left_internal.load_mut().join_boundary(&mut *right_internal);
+        }
+    }
+
     /// Returns the size of the of node.
     pub fn len(&self) -> usize {
         match self {
diff --git a/src/vector.rs b/src/vector.rs
index cd67df9..995d63f 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1087,6 +1087,7 @@ where
             let mut left_right_most = left.pop_child(Side::Back);
             while !left_right_most.is_full() && !right.is_empty() {
                 let mut right_left_most = right.pop_child(Side::Front);
+                left_right_most.join_boundary(&mut right_left_most);
                 right_left_most.share_children_with(
                     &mut left_right_most,
                     Side::Front,
-- 
2.43.0


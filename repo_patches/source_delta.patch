From b2a678c779a7a0e0a2300ceff95da9bb0bd3edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 1/7] fix: DefaultAllocator reports exhausted memory as
 OOMError instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 619312b..727ba52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,7 +61,7 @@ impl Allocator for DefaultAllocator {
     fn allocate(&self, layout: std::alloc::Layout) -> Result<std::ptr::NonNull<[u8]>, OOMError> {
         let ptr = unsafe { std::alloc::alloc(layout) };
         let ptr_slice = std::ptr::slice_from_raw_parts_mut(ptr, layout.size());
-        Ok(std::ptr::NonNull::new(ptr_slice).unwrap())
+        std::ptr::NonNull::new(ptr_slice).ok_or_else(OOMError::new)
     }
 
     unsafe fn deallocate(&self, ptr: std::ptr::NonNull<u8>, layout: std::alloc::Layout) {
-- 
2.43.0


From b44211d62ebc897c75c81f1e9cc31f6faa22d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 2/7] fix: optimistic readers of Node48 and Node16 fetch
 position and count only once

---
 src/node_16.rs | 8 ++++----
 src/node_48.rs | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/node_16.rs b/src/node_16.rs
index d52ea4f..7ebf0a7 100644
--- a/src/node_16.rs
+++ b/src/node_16.rs
@@ -65,7 +65,9 @@ impl Node for Node16 {
     }
 
     fn get_children(&self, start: u8, end: u8) -> NodeIter {
-        if self.base.meta.count == 0 {
+        // read the count once: a concurrent writer may change it between two reads
+        let count = self.base.meta.count as usize;
+        if count == 0 {
             // FIXME: the node may be empty due to deletion, this is not intended, we should fix the delete logic
             return NodeIter::N16(Node16Iter {
                 node: self,
@@ -74,9 +76,7 @@ impl Node for Node16 {
             });
         }
         let start_pos = self.get_child_pos(start).unwrap_or(0);
-        let end_pos = self
-            .get_child_pos(end)
-            .unwrap_or(self.base.meta.count as usize - 1);
+        let end_pos = self.get_child_pos(end).unwrap_or(count - 1);
 
         debug_assert!(end_pos < 16);
 
diff --git a/src/node_48.rs b/src/node_48.rs
index 91b6133..34891ca 100644
--- a/src/node_48.rs
+++ b/src/node_48.rs
@@ -115,11 +115,12 @@ impl Node for Node48 {
     }
 
     fn get_child(&self, key: u8) -> Option<NodePtr> {
-        let pos = unsafe { self.child_idx.get_unchecked(key as usize) };
-        if *pos == EMPTY_MARKER {
+        // read the position once: a concurrent writer may change it between two reads
+        let pos = unsafe { *self.child_idx.get_unchecked(key as usize) };
+        if pos == EMPTY_MARKER {
             None
         } else {
-            let child = unsafe { self.children.get_unchecked(*pos as usize) };
+            let child = unsafe { self.children.get_unchecked(pos as usize) };
             Some(*child)
         }
     }
-- 
2.43.0


From b814add990ba665e9bf5526aa8df42ef4b068e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 3/7] fix: a map may cross threads only if its allocator and
 drain callback may

---
 src/lib.rs  | 2 +-
 src/tree.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 727ba52..20c4e7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -229,7 +229,7 @@ where
     /// assert_eq!(deleted_key.load(std::sync::atomic::Ordering::Relaxed), 1);
     /// assert_eq!(deleted_value.load(std::sync::atomic::Ordering::Relaxed), 42);
     /// ```
-    pub fn new_with_drainer(allocator: A, drainer: impl Fn(K, V) + 'static) -> Self {
+    pub fn new_with_drainer(allocator: A, drainer: impl Fn(K, V) + Send + 'static) -> Self {
         let drainer = Arc::new(move |k: [u8; 8], v: usize| {
             drainer(K::from(usize::from_be_bytes(k)), V::from(v))
         });
diff --git a/src/tree.rs b/src/tree.rs
index a25157f..09d3442 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,7 @@ pub(crate) struct RawCongee<
 }
 
 unsafe impl<const K_LEN: usize, A: Allocator + Clone + Send> Send for RawCongee<K_LEN, A> {}
-unsafe impl<const K_LEN: usize, A: Allocator + Clone + Send> Sync for RawCongee<K_LEN, A> {}
+unsafe impl<const K_LEN: usize, A: Allocator + Clone + Send + Sync> Sync for RawCongee<K_LEN, A> {}
 
 impl<const K_LEN: usize> Default for RawCongee<K_LEN> {
     fn default() -> Self {
-- 
2.43.0


From e44deea9030fbbf79f6ae9d2beaee96e5f77e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 4/7] fix: range scan confirms a node unchanged before it
 reports an absent child or the end of its children

---
 src/range_scan.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/range_scan.rs b/src/range_scan.rs
index 401a3c1..2890b6c 100644
--- a/src/range_scan.rs
+++ b/src/range_scan.rs
@@ -106,13 +106,15 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                                 return Ok(self.result_found);
                             }
                         }
+                        node.check_version()?;
                     } else {
-                        let next_node_tmp = if let Some(n) = node.as_ref().get_child(start_level) {
+                        let next_node_tmp = node.as_ref().get_child(start_level);
+                        node.check_version()?;
+                        let next_node_tmp = if let Some(n) = next_node_tmp {
                             n
                         } else {
                             return Ok(0);
                         };
-                        node.check_version()?;
 
                         if key_tracker.len() == (K_LEN - 1) {
                             self.copy_node_recursive(next_node_tmp, &key_tracker)?;
@@ -193,6 +195,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => {
@@ -251,6 +254,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => Ok(()),
@@ -299,6 +303,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
 
                     key_tracker.pop();
                 }
+                node.check_version()?;
             }
         };
 
-- 
2.43.0


From 5c0eae132ee1e77e9d2bd0047a5a98b894135b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 5/7] fix: statistics and counts follow only confirmed links,
 while pinned, and retry on contention

---
 src/stats.rs | 34 +++++++++++++++++-----------------
 src/tree.rs  |  6 ++++--
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/stats.rs b/src/stats.rs
index a4a0af9..c9fc385 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, fmt::Display, ptr::NonNull};
+use std::{collections::HashMap, fmt::Display};
 
 use crate::{
     base_node::{BaseNode, NodeType},
@@ -125,15 +125,13 @@ struct StatsVisitor {
 }
 
 impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
-    fn pre_visit_sub_node(&mut self, node: NonNull<BaseNode>, tree_level: usize) {
-        let node = BaseNode::read_lock(node).unwrap();
-
+    fn pre_visit_sub_node(&mut self, node: &BaseNode, tree_level: usize) {
         self.node_stats
             .levels
             .entry(tree_level)
             .or_insert_with(|| LevelStats::new_level(tree_level));
 
-        match node.as_ref().get_type() {
+        match node.get_type() {
             crate::base_node::NodeType::N4 => {
                 self.node_stats
                     .levels
@@ -146,7 +144,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n4
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N16 => {
                 self.node_stats
@@ -160,7 +158,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n16
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N48 => {
                 self.node_stats
@@ -174,7 +172,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n48
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N256 => {
                 self.node_stats
@@ -188,7 +186,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n256
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
         }
     }
@@ -197,14 +195,16 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     /// Returns the node stats for the tree.
     pub fn stats(&self) -> NodeStats {
-        let mut visitor = StatsVisitor {
-            node_stats: NodeStats::default(),
-        };
-
-        self.dfs_visitor_slow(&mut visitor).unwrap();
         let pin = crossbeam_epoch::pin();
-        visitor.node_stats.kv_pairs = self.value_count(&pin);
-
-        visitor.node_stats
+        loop {
+            let mut visitor = StatsVisitor {
+                node_stats: NodeStats::default(),
+            };
+
+            if self.dfs_visitor_slow(&mut visitor).is_ok() {
+                visitor.node_stats.kv_pairs = self.value_count(&pin);
+                return visitor.node_stats;
+            }
+        }
     }
 }
diff --git a/src/tree.rs b/src/tree.rs
index 09d3442..6a16109 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -37,7 +37,8 @@ impl<const K_LEN: usize> Default for RawCongee<K_LEN> {
 
 pub(crate) trait CongeeVisitor<const K_LEN: usize> {
     fn visit_payload(&mut self, _key: [u8; K_LEN], _payload: usize) {}
-    fn pre_visit_sub_node(&mut self, _node: NonNull<BaseNode>, _tree_level: usize) {}
+    /// `_node` is read-locked; what the visitor learns from it holds only if the visit succeeds.
+    fn pre_visit_sub_node(&mut self, _node: &BaseNode, _tree_level: usize) {}
     fn post_visit_sub_node(&mut self, _node: NonNull<BaseNode>, _tree_level: usize) {}
 }
 
@@ -181,10 +182,11 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                 visitor.visit_payload(k, v);
             }
             VisitingEntry::SubNode(node_ptr) => {
-                visitor.pre_visit_sub_node(node_ptr, tree_level);
                 let node_lock = BaseNode::read_lock(node_ptr)?;
+                visitor.pre_visit_sub_node(node_lock.as_ref(), tree_level);
                 let children = node_lock.as_ref().get_children(0, 255);
                 for (k, child_ptr) in children {
+                    node_lock.check_version()?;
                     let next = match child_ptr.downcast::<K_LEN>(node_lock.as_ref().prefix().len())
                     {
                         PtrType::Payload(tid) => {
-- 
2.43.0


From 85a17a70ef8b8c95a3ffb2e8007e9aec1478d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 6/7] fix: a node that does not make it into the tree is given
 back to the allocator

---
 src/base_node.rs |  9 +++++----
 src/node_ptr.rs  | 15 ++++++++++-----
 src/tree.rs      |  8 ++++----
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/base_node.rs b/src/base_node.rs
index 3b3c385..b11647c 100644
--- a/src/base_node.rs
+++ b/src/base_node.rs
@@ -198,10 +198,10 @@ impl BaseNode {
         }
     }
 
-    pub(crate) fn make_node<N: Node>(
+    pub(crate) fn make_node<'a, N: Node, A: Allocator>(
         prefix: &[u8],
-        allocator: &impl Allocator,
-    ) -> Result<AllocatedNode<N>, ArtError> {
+        allocator: &'a A,
+    ) -> Result<AllocatedNode<'a, N, A>, ArtError> {
         let layout = N::get_type().node_layout();
         let ptr = allocator
             .allocate_zeroed(layout)
@@ -218,6 +218,7 @@ impl BaseNode {
 
             Ok(AllocatedNode::new(
                 NonNull::new(base_ptr as *mut N).unwrap(),
+                allocator,
             ))
         }
     }
@@ -344,7 +345,7 @@ impl BaseNode {
         let mut write_n = n.upgrade().map_err(|v| v.1)?;
 
         let mut n_big =
-            BaseNode::make_node::<BiggerT>(write_n.as_ref().base().prefix(), allocator)?;
+            BaseNode::make_node::<BiggerT, A>(write_n.as_ref().base().prefix(), allocator)?;
         write_n.as_ref().copy_to(n_big.as_mut());
         n_big.as_mut().insert(val.0, val.1);
 
diff --git a/src/node_ptr.rs b/src/node_ptr.rs
index 87e29e0..a295b3e 100644
--- a/src/node_ptr.rs
+++ b/src/node_ptr.rs
@@ -3,6 +3,7 @@ use std::{fmt::Debug, ptr::NonNull};
 use crate::{
     base_node::{BaseNode, Node},
     utils::KeyTracker,
+    Allocator,
 };
 
 pub(crate) struct ChildIsPayload<'a> {
@@ -88,13 +89,15 @@ impl NodePtr {
     }
 }
 
-pub(crate) struct AllocatedNode<N: Node> {
+/// A node that is not yet part of the tree; it is given back to the allocator when dropped.
+pub(crate) struct AllocatedNode<'a, N: Node, A: Allocator> {
     ptr: NonNull<N>,
+    allocator: &'a A,
 }
 
-impl<N: Node> AllocatedNode<N> {
-    pub(crate) fn new(ptr: NonNull<N>) -> Self {
-        Self { ptr }
+impl<'a, N: Node, A: Allocator> AllocatedNode<'a, N, A> {
+    pub(crate) fn new(ptr: NonNull<N>, allocator: &'a A) -> Self {
+        Self { ptr, allocator }
     }
 
     pub(crate) fn as_mut(&mut self) -> &mut N {
@@ -114,10 +117,12 @@ impl<N: Node> AllocatedNode<N> {
     }
 }
 
-impl<N: Node> Drop for AllocatedNode<N> {
+impl<N: Node, A: Allocator> Drop for AllocatedNode<'_, N, A> {
     fn drop(&mut self) {
         unsafe {
             std::ptr::drop_in_place(self.ptr.as_mut());
+            self.allocator
+                .deallocate(self.ptr.cast(), N::get_type().node_layout());
         }
     }
 }
diff --git a/src/tree.rs b/src/tree.rs
index 6a16109..f4a0d78 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -88,7 +88,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> Drop for RawCongee<K_LEN,
 
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     pub fn new(allocator: A, drain_callback: Arc<dyn Fn([u8; K_LEN], usize)>) -> Self {
-        let root = BaseNode::make_node::<Node256>(&[], &allocator)
+        let root = BaseNode::make_node::<Node256, A>(&[], &allocator)
             .expect("Can't allocate memory for root node!");
         RawCongee {
             root: root.into_non_null(),
@@ -256,7 +256,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                                 Ok(_is_last_level) => NodePtr::from_payload(tid_func(None)),
                                 Err(_is_sub_node) => {
                                     let new_prefix = k;
-                                    let mut n4 = BaseNode::make_node::<Node4>(
+                                    let mut n4 = BaseNode::make_node::<Node4, A>(
                                         &new_prefix[..k.len() - 1],
                                         &self.allocator,
                                     )?;
@@ -322,7 +322,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                     let mut write_n = node.upgrade().map_err(|(_n, v)| v)?;
 
                     // 1) Create new node which will be parent of node, Set common prefix, level to this node
-                    let mut new_middle_node = BaseNode::make_node::<Node4>(
+                    let mut new_middle_node = BaseNode::make_node::<Node4, A>(
                         write_n.as_ref().prefix()[0..next_level].as_ref(),
                         &self.allocator,
                     )?;
@@ -336,7 +336,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                     } else {
                         // otherwise create a new node
                         let mut single_new_node =
-                            BaseNode::make_node::<Node4>(&k[..k.len() - 1], &self.allocator)?;
+                            BaseNode::make_node::<Node4, A>(&k[..k.len() - 1], &self.allocator)?;
 
                         single_new_node
                             .as_mut()
-- 
2.43.0


From d62dbe8a36d85b0484f885ed771655a2e7f8772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 7/7] fix: is_empty looks below inner nodes that removals left
 without children

---
 src/tree.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index f4a0d78..a0891f1 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -103,12 +103,36 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     pub(crate) fn is_empty(&self, _guard: &Guard) -> bool {
         loop {
             if let Ok(node) = BaseNode::read_lock_root(self.root) {
-                let is_empty = node.as_ref().meta.count == 0;
-                if node.check_version().is_ok() {
-                    return is_empty;
+                let mut visited = Vec::new();
+                if let Ok(is_empty) = Self::holds_no_value(node, &mut visited) {
+                    // all visited nodes were without a value at the same time
+                    if !is_empty || visited.iter().all(|n| n.check_version().is_ok()) {
+                        return is_empty;
+                    }
+                }
+            }
+        }
+    }
+
+    /// Whether there is no value below `node`: removals leave inner nodes without any child behind.
+    fn holds_no_value<'a>(
+        node: ReadGuard<'a>,
+        visited: &mut Vec<ReadGuard<'a>>,
+    ) -> Result<bool, ArtError> {
+        for (_, child) in node.as_ref().get_children(0, 255) {
+            node.check_version()?;
+            match child.downcast::<K_LEN>(node.as_ref().prefix().len()) {
+                PtrType::Payload(_) => return Ok(false),
+                PtrType::SubNode(sub_node) => {
+                    if !Self::holds_no_value(BaseNode::read_lock(sub_node)?, visited)? {
+                        return Ok(false);
+                    }
                 }
             }
         }
+        node.check_version()?;
+        visited.push(node);
+        Ok(true)
     }
 
     #[inline]
-- 
2.43.0


From 7e843b273c80ca9e6b97a425e03ff559069648d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 1/7] fix: Iter::next_back counts the entries it yields

Without the decrement the reported length was wrong after next_back, and
mixing next and next_back yielded entries twice.
---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..8474416 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -90,6 +91,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = leaf.len() - 1;
 
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(leaf.data_at(offset))
                 }
             }
@@ -104,6 +106,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                 let offset = last_leaf_size - 1;
 
                 self.end = Some((last_leaf, offset));
+                self.len -= 1;
                 Some(last_leaf.data_at(offset))
             }
         }
-- 
2.43.0


From 929e9479f6d06b18efa2d9fd6849fc425a18a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 2/7] fix: GroupCount::from_leaf counts the last group of a
 leaf from one

With three or more groups in a leaf, the items of every group but the first
were counted into the last one.
---
 src/augment/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..cd61e50 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,7 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From b4d65a6e28422ee9e5f02e0368a6bf68d2d65c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 3/7] fix: GroupCount rank keeps the rank of upper layers for a
 first child

Descending into the first child of an inner node dropped what the layers
above had already counted for the group.
---
 src/augment/group.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index cd61e50..d988a03 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -291,7 +291,11 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
+        let last_augmentation = match rev_iter.next() {
+            Some(a) => a,
+            // no sibling before the child, the rank from upper layers is kept
+            None => return rank,
+        };
 
         let (max_group, mut max_group_size) = last_augmentation.max_group()?;
 
-- 
2.43.0


From d32195b6dc3146f3c8d1c3b08925a4cac21c9a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 4/7] fix: Cursor::first and Cursor::last of an empty tree are
 None

They read the first slot of the empty root leaf, which was never written.
---
 src/tree/cursor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..92a7aa1 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -43,7 +43,7 @@ impl<'k, K: Key + 'k> Cursor<K> {
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
-        let kv = leaf.data_at(0);
+        let kv = leaf.try_data_at(0)?;
 
         Some((
             Self {
@@ -63,13 +63,14 @@ impl<'k, K: Key + 'k> Cursor<K> {
     {
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
-        let kv = leaf.data_at(leaf.len() - 1);
+        let offset = leaf.len().checked_sub(1)?;
+        let kv = leaf.data_at(offset);
 
         Some((
             Self {
                 k: kv.0.clone(),
                 leaf_id_hint: leaf_id,
-                offset_hint: leaf.len() - 1,
+                offset_hint: offset,
             },
             kv.1,
         ))
-- 
2.43.0


From a166e428e56e148c01c79730e84d76d7d82250f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 5/7] fix: bulk_load gives every inner node at least one key

When the number of children was one more than a multiple of the fan-out, the
last inner node of the layer got a single child and no key, and removing from
the leaf below it hit unreachable!() or a slot before the first one.
---
 src/tree/bulk_load.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..0a52f7b 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,13 +71,21 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        let mut rest = nodes.as_slice();
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
 
         for _ in 0..node_num {
-            let childs = chunk_iter.next().unwrap();
+            // the last node should not be left with a single child, it would have no key at all
+            let size = if rest.len() == child_n + 1 {
+                child_n - 1
+            } else {
+                child_n.min(rest.len())
+            };
+            let (childs, tail) = rest.split_at(size);
+            rest = tail;
+
             let start_key = childs[0].1 .0.clone();
             let end_key = childs[childs.len() - 1].1 .0.clone();
 
-- 
2.43.0


From d45f21c99aa02dc4cb6b810e91efa0ba7a689bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 6/7] fix: merging inner nodes drops no augmentation twice

The right node was emptied by setting its size to 0, but a node of size 0
still has one augmentation, which had been moved into the left node.
---
 src/tree/inner_node.rs  | 10 ++++++++--
 src/tree/tree_remove.rs |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..5a39181 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -418,7 +418,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         }
     }
 
-    pub(crate) fn merge_next(&mut self, slot_key: K, right: &mut Self) {
+    /// Merge all data of right into self, right is released
+    pub(crate) fn merge_next(&mut self, slot_key: K, mut right: Box<Self>) {
         unsafe {
             *self.key_area_mut(self.size as usize) = MaybeUninit::new(slot_key);
             self.size += 1;
@@ -441,7 +442,12 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
                 self.augmentation_area_mut(self_size..self_size + right_size + 1),
             );
             self.size += right.size;
-            right.size = 0;
+
+            // All keys and augmentations of right are moved out, release the memory only. `Drop` can't
+            // be used here, a node of size 0 still has one augmentation to drop.
+            drop(Box::from_raw(
+                Box::into_raw(right).cast::<MaybeUninit<Self>>(),
+            ));
         }
     }
 
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..4a1b523 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -319,9 +319,9 @@ impl<S: NodeStore> BPlusTree<S> {
         let (result, slot_key) = node.remove_slot_with_right(slot);
 
         // merge right into left
-        let mut right = node_store.take_inner(right_child_id);
+        let right = node_store.take_inner(right_child_id);
         let left = node_store.get_mut_inner(left_child_id);
-        left.merge_next(slot_key, &mut right);
+        left.merge_next(slot_key, right);
 
         let augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
         node.set_augmentation(slot, augmentation);
-- 
2.43.0


From 719636683dc8355dc9a935e091a8e57fc82503f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 7/7] fix: consuming a tree drops its root augmentation

into_parts forgot it, so into_iter leaked it.
---
 src/tree/iterator.rs |  8 ++++++++
 src/tree/mod.rs      | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index 8474416..9b81090 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -132,7 +132,15 @@ impl<S: NodeStore> IntoIter<S> {
         let last_leaf_id = tree.last_leaf().unwrap();
 
         let (node_store, _root_id, len) = tree.into_parts();
+        Self::from_parts(node_store, first_leaf_id, last_leaf_id, len)
+    }
 
+    pub(crate) fn from_parts(
+        node_store: S,
+        first_leaf_id: LeafNodeId,
+        last_leaf_id: LeafNodeId,
+        len: usize,
+    ) -> Self {
         let last_leaf_size = node_store.get_leaf(last_leaf_id).len();
 
         Self {
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..4cfceb1 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -199,6 +199,8 @@ where
     /// consume self and return the parts. This is useful when implementing `IntoIter`
     fn into_parts(self) -> (S, NodeId, usize) {
         let mut me = ManuallyDrop::new(self);
+        // Safety: me is never used as a whole again
+        unsafe { std::ptr::drop_in_place(&mut me.root_augmentation) };
         (
             unsafe { ManuallyDrop::take(&mut me.node_store) },
             me.root,
@@ -817,7 +819,18 @@ where
 
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
-        unsafe { drop(std::ptr::read(self).into_iter()) }
+        // the tree ensures there is at least one leaf
+        let first_leaf_id = self.first_leaf().unwrap();
+        let last_leaf_id = self.last_leaf().unwrap();
+
+        // Safety: self is not used any more. root_augmentation is dropped after this, as any field
+        let node_store = unsafe { ManuallyDrop::take(&mut self.node_store) };
+        drop(IntoIter::from_parts(
+            node_store,
+            first_leaf_id,
+            last_leaf_id,
+            self.len,
+        ));
     }
 }
 
-- 
2.43.0


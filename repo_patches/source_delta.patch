From cfc3cfa5b42a66e0e7d971deb26dc5effd8463ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 1/8] fix: load an empty sparse tree from the zero root

---
 src/sparse/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..2bdc9bb 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        if root == zero_sum() {
+            // The zero root is the root of the empty tree, which has no nodes
+            // in storage.
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From f57f7a97db4b4daa025bc47a931ae1603df373b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 2/8] fix: find the sparse leaf to delete by its path, not by a
 key index in node storage

---
 src/sparse/merkle_tree.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 2bdc9bb..2097ec9 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -1,5 +1,5 @@
 use crate::{
-    common::{error::DeserializeError, AsPathIterator, Bytes32, ChildError},
+    common::{error::DeserializeError, AsPathIterator, Bytes32, ChildError, Prefix},
     sparse::{primitive::Primitive, zero_sum, Node, StorageNode, StorageNodeError},
     storage::{Mappable, StorageMutate},
 };
@@ -92,8 +92,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
@@ -112,13 +110,12 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
+        // Follow the path of the key down to the leaf closest to it. Only if
+        // this is the leaf of the given key is there anything to delete.
+        let leaf_node = Node::new(0, Prefix::Leaf, *key, *zero_sum());
+        let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) = self.path_set(leaf_node.clone())?;
+        let actual_leaf_node = &path_nodes[0];
+        if !actual_leaf_node.is_placeholder() && actual_leaf_node.leaf_key() == key {
             self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
         }
 
-- 
2.43.0


From b187ab7ab2be279b802d4aa481159b97cf9f356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 3/8] fix: store the new sparse nodes before removing stale
 ones on delete

---
 src/sparse/merkle_tree.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 2097ec9..aedeb1d 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -233,10 +233,6 @@ where
         path_nodes: &[Node],
         side_nodes: &[Node],
     ) -> Result<(), StorageError> {
-        for node in path_nodes {
-            self.storage.remove(&node.hash())?;
-        }
-
         let path = requested_leaf_node.leaf_key();
         let mut side_nodes_iter = side_nodes.iter();
 
@@ -289,6 +285,12 @@ where
 
         self.set_root_node(current_node);
 
+        // Remove the stale nodes only when the new root is in place, so that a
+        // storage error cannot leave a root whose nodes are missing.
+        for node in path_nodes {
+            self.storage.remove(&node.hash())?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 39c4a88e782f9ceb302c69e75f7b14d1a87ab511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 4/8] fix: refuse the largest proof index without overflow

---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..f8c250c 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From 827bbc0e64a24703faa8535533d276f661b21b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 5/8] fix: keep the binary tree unchanged when a push fails in
 storage

---
 src/binary/merkle_tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index f8c250c..c7e6542 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -295,10 +295,14 @@ where
     pub fn push(&mut self, data: &[u8]) -> Result<(), MerkleTreeError<StorageError>> {
         let node = Node::create_leaf(self.leaves_count, data);
         self.storage.insert(&node.key(), &node.as_ref().into())?;
+        let previous = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            self.head = previous;
+            return Err(err.into());
+        }
 
         self.leaves_count += 1;
 
-- 
2.43.0


From 1d9752b5a70fa05cd1cd9a1753ed52a6a9068705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 6/8] fix: keep the sum tree unchanged when a push fails in
 storage

---
 src/sum/merkle_tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sum/merkle_tree.rs b/src/sum/merkle_tree.rs
index a3cc9d4..20d0c60 100644
--- a/src/sum/merkle_tree.rs
+++ b/src/sum/merkle_tree.rs
@@ -72,10 +72,14 @@ where
         let node = Node::create_leaf(fee, data);
         self.storage.insert(node.hash(), &node)?;
 
+        let previous = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            self.head = previous;
+            return Err(err);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 93e625d4aded2f5d0ef0819fd8490fce8000304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 7/8] fix: position arithmetic over the whole 64-bit index
 range

---
 src/common/position.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/common/position.rs b/src/common/position.rs
index 7b9ba75..902c322 100644
--- a/src/common/position.rs
+++ b/src/common/position.rs
@@ -111,16 +111,14 @@ impl Position {
     /// A position shares the same parent and height as its sibling.
     pub fn sibling(self) -> Self {
         let shift = 1 << (self.height() + 1);
-        let index = self.in_order_index() as i64 + shift * self.direction();
-        Self::from_in_order_index(index as u64)
+        self.moved_by(shift, self.direction())
     }
 
     /// The parent position.
     /// The parent position has a height less 1 relative to this position.
     pub fn parent(self) -> Self {
         let shift = 1 << self.height();
-        let index = self.in_order_index() as i64 + shift * self.direction();
-        Self::from_in_order_index(index as u64)
+        self.moved_by(shift, self.direction())
     }
 
     /// The uncle position.
@@ -209,8 +207,18 @@ impl Position {
     fn child(self, direction: i64) -> Self {
         assert!(self.is_node());
         let shift = 1 << (self.height() - 1);
-        let index = self.in_order_index() as i64 + shift * direction;
-        Self::from_in_order_index(index as u64)
+        self.moved_by(shift, direction)
+    }
+
+    /// The position `shift` in-order indices to the left (direction `-1`) or to
+    /// the right (direction `+1`) of this position.
+    fn moved_by(self, shift: u64, direction: i64) -> Self {
+        let index = if direction < 0 {
+            self.in_order_index() - shift
+        } else {
+            self.in_order_index() + shift
+        };
+        Self::from_in_order_index(index)
     }
 
     /// Orientation of the position index relative to its parent.
@@ -233,8 +241,9 @@ impl Position {
     /// |           9 |        1001 |      1 |           0 |
     /// |          13 |        1101 |      1 |           1 |
     fn orientation(self) -> u8 {
-        let shift = 1 << (self.height() + 1);
-        (self.in_order_index() & shift != 0) as u8
+        let shift = self.height() + 1;
+        let bits = self.in_order_index().checked_shr(shift).unwrap_or(0);
+        (bits & 1) as u8
     }
 
     /// The "direction" to travel to reach the parent node.
-- 
2.43.0


From 0d1ee938a12ef80ae9e7cd578c8a8b3e45ff9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:00 +0000
Subject: [PATCH 8/8] fix: report the key of the missing leaf record when a
 proof cannot load it

---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index c7e6542..9a8573a 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -93,7 +93,7 @@ where
         let primitive = self
             .storage
             .get(&leaf_position.in_order_index())?
-            .ok_or(MerkleTreeError::LoadError(proof_index))?
+            .ok_or(MerkleTreeError::LoadError(leaf_position.in_order_index()))?
             .into_owned();
         let leaf_node = Node::from(primitive);
         proof_set.push(*leaf_node.hash());
-- 
2.43.0


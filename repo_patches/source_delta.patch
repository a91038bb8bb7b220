From 6395f5c04e0be3ba7c6fd7e584aeea301388c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 01/16] fix: keep the patricia trie canonical when removing a
 branch value

Removing a key that is a proper prefix of other keys left a branch that
should have collapsed, and reported success even if the key was absent.
---
 pmt/src/inner.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..ce12c1f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -528,19 +528,19 @@ where
                 let borrow_branch = branch.borrow_mut();
 
                 if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
-                }
+                    let deleted = borrow_branch.value.take().is_some();
+                    Ok((Node::Branch(branch.clone()), deleted))
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
+                    Ok((Node::Branch(branch.clone()), deleted))
                 }
-
-                Ok((Node::Branch(branch.clone()), deleted))
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext.borrow_mut();
-- 
2.43.0


From fca49f65083d4ee7fb8cbb38aaf680eef218b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 02/16] fix: do not prune a small root that the same commit
 just wrote

A root shorter than 32 bytes was not recorded as generated, so committing
it unchanged on a light database removed it and panicked.
---
 pmt/src/inner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ce12c1f..28bc19d 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -282,6 +282,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
-- 
2.43.0


From e2bb37edcab00d0ad9eb3e859615ff4c03e26d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 03/16] fix: do not prune nodes visited by failed or
 ineffective operations

Removing an absent key, or an insertion or removal that failed half way,
marked the visited nodes as superseded although the trie still refers to
them; the next commit on a light database deleted them.
---
 pmt/src/inner.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 28bc19d..52f8283 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -154,7 +154,10 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+        // Nodes are only superseded if the insertion succeeds.
+        let superseded = std::mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
+        let traversed = std::mem::replace(&mut self.passing_keys, superseded);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -172,6 +175,7 @@ where
         }
 
         self.root = result?;
+        self.passing_keys.extend(traversed);
 
         Ok(())
     }
@@ -180,7 +184,10 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        // Nodes are only superseded if the key is actually removed.
+        let superseded = std::mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
+        let traversed = std::mem::replace(&mut self.passing_keys, superseded);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -198,7 +205,10 @@ where
         }
 
         let (n, removed) = result?;
-        self.root = n;
+        if removed {
+            self.root = n;
+            self.passing_keys.extend(traversed);
+        }
 
         Ok(removed)
     }
-- 
2.43.0


From 7fcd0d2a66e98fb8ad101d09356b59a9fc57c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 04/16] fix: iterate patricia tries that hold the empty key
 next to others

---
 pmt/src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index 20dff17..f7d966b 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -56,7 +56,7 @@ impl Nibbles {
     }
 
     pub fn is_leaf(&self) -> bool {
-        self.hex_data[self.hex_data.len() - 1] == 16
+        self.hex_data.last() == Some(&16)
     }
 
     pub fn encode_compact(&self) -> Vec<u8> {
-- 
2.43.0


From f5447c568892ab658862749ea481ee3675fb7d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 05/16] fix: reject malformed patricia nodes instead of
 crashing

verify_proof panicked on nodes with an invalid compact key or an empty
extension prefix and overflowed the stack on deeply nested nodes.
---
 pmt/src/inner.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 52f8283..968f519 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -794,12 +794,21 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
+                if key.first().map_or(true, |flag| flag >> 4 > 3) {
+                    return Err(TrieError::InvalidData(
+                        "node key is not in compact encoding".to_string(),
+                    ));
+                }
                 let key = Nibbles::from_compact(key);
 
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
+                } else if key.is_empty() {
+                    Err(TrieError::InvalidData(
+                        "extension node with an empty prefix".to_string(),
+                    ))
                 } else {
-                    let n = self.decode_node(r.at(1)?.as_raw())?;
+                    let n = self.decode_child(&r.at(1)?)?;
 
                     Ok(Node::from_extension(key, n))
                 }
@@ -808,9 +817,7 @@ where
                 let mut nodes: [Box<Node>; 16] = Default::default();
                 #[allow(clippy::needless_range_loop)]
                 for i in 0..nodes.len() {
-                    let rlp_data = r.at(i)?;
-                    let n = self.decode_node(rlp_data.as_raw())?;
-                    *nodes[i] = n;
+                    *nodes[i] = self.decode_child(&r.at(i)?)?;
                 }
 
                 // The last element is a value node.
@@ -836,6 +843,17 @@ where
         }
     }
 
+    /// Decodes a child embedded in its parent. Only nodes whose encoding is
+    /// shorter than a hash are embedded, which also bounds the recursion.
+    fn decode_child(&self, r: &Rlp) -> Result<Node> {
+        if r.is_list() && r.as_raw().len() >= HASHED_LENGTH {
+            return Err(TrieError::InvalidData(
+                "embedded node is larger than a hash".to_string(),
+            ));
+        }
+        self.decode_node(r.as_raw())
+    }
+
     pub(crate) fn recover_from_db(&self, key: H256) -> Result<Option<Node>> {
         let node = match self
             .db
-- 
2.43.0


From b2cb271515ed813b63693ffe12ecd3c95753e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 06/16] fix: report a missing root from commit instead of
 panicking

---
 pmt/src/inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 968f519..67c4058 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -325,7 +325,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
-- 
2.43.0


From 9c5d3594f3616038372419c9ff5b5c561c5b946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 07/16] fix: do not store nodes left over from proofs or failed
 commits

---
 pmt/src/inner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 67c4058..a792e5e 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -287,6 +287,11 @@ where
     }
 
     fn commit(&mut self) -> Result<H256> {
+        // Everything to be stored is encoded again from the root below. What is
+        // left over from creating proofs or from a failed commit is obsolete.
+        self.cache.clear();
+        self.gen_keys.clear();
+
         let root_hash = match self.write_node(&self.root.clone()) {
             EncodedNode::Hash(hash) => hash,
             EncodedNode::Inline(encoded) => {
-- 
2.43.0


From a0d48dfc3be1e55fb047956415fb82d178ce5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 08/16] fix: prune the previous root on a light database

The root is kept decoded after a commit and was therefore never marked as
superseded, so every further commit left the previous root behind.
---
 pmt/src/inner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index a792e5e..da87b20 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -314,6 +314,11 @@ where
             .insert_batch(keys, values)
             .map_err(|e| TrieError::Database(e.to_string()))?;
 
+        // The previous root is kept decoded, so it is not seen as a hash node.
+        if root_hash != self.root_hash {
+            self.passing_keys.insert(self.root_hash.as_bytes().to_vec());
+        }
+
         let removed_keys: Vec<Vec<u8>> = self
             .passing_keys
             .iter()
-- 
2.43.0


From eaf9bebcfd0673582432bdf648c374aded0cfe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 09/16] fix: wait for writers in MemoryDB len, is_empty and
 values

They panicked or returned nothing while another thread was writing.
---
 pmt/src/db.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pmt/src/db.rs b/pmt/src/db.rs
index 88171ed..e744add 100644
--- a/pmt/src/db.rs
+++ b/pmt/src/db.rs
@@ -110,20 +110,18 @@ impl Database for MemoryDB {
     }
 
     fn len(&self) -> Result<usize, Self::Error> {
-        Ok(self.storage.try_read().unwrap().len())
+        Ok(self.storage.read().len())
     }
 
     fn is_empty(&self) -> Result<bool, Self::Error> {
-        Ok(self.storage.try_read().unwrap().is_empty())
+        Ok(self.storage.read().is_empty())
     }
 
     fn values(&self) -> Result<Vec<(Vec<u8>, OwnedValue)>, Self::Error> {
         let mut values = Vec::new();
 
-        if let Some(handle) = self.storage.try_read() {
-            for (k, v) in handle.iter() {
-                values.push((k.clone(), v.clone()));
-            }
+        for (k, v) in self.storage.read().iter() {
+            values.push((k.clone(), v.clone()));
         }
 
         Ok(values)
-- 
2.43.0


From a4498152835b572046b92054708268eb02c37cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 10/16] fix: find exclusion proof neighbours stored at older
 versions

The neighbouring subtree was looked up at the queried version instead of
the version it was last written at, so exclusion and ICS23 non-existence
proofs failed on any tree built over several versions.
---
 jmt/src/tree.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..3a965c9 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -923,25 +923,25 @@ where
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
                     .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
                     .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
             }
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -956,13 +956,14 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        let (neighbor_nibble, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor_nibble);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From 67e14ef0a2b7c60b0ae5e6f405cc57322b895053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 11/16] fix: report reopening a completed restore as an error

It panicked unless the restored tree was a single leaf.
---
 jmt/src/restore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..f6194a3 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -249,6 +249,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "Root node exists, the restoration process has already completed.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From 5e2c766d0463056eab46b244b474329d8758fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 12/16] fix: finish a restore only if the tree has the expected
 root

Finishing early or after a rejected chunk stored a wrong root or panicked.
---
 jmt/src/restore.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index f6194a3..3322306 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -674,6 +674,11 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     /// Finishes the restoration process. This tells the code that there is no more account,
     /// otherwise we can not freeze the rightmost leaf and its ancestors.
     fn finish_impl(mut self) -> Result<()> {
+        ensure!(
+            self.previous_leaf.is_some(),
+            "Cannot finish before any key has been restored.",
+        );
+
         // Deal with the special case when the entire tree has a single leaf.
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
@@ -690,7 +695,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             if num_children == 1 {
                 if let Some(node) = leaf {
                     let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
+                    self.ensure_expected_root(node.hash())?;
                     self.frozen_nodes.insert_node(node_key, node.into());
                     self.store.write_node_batch(&self.frozen_nodes)?;
                     return Ok(());
@@ -699,8 +704,23 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         }
 
         self.freeze(0);
+        let root_node_key = NodeKey::new_empty_path(self.version);
+        match self.frozen_nodes.get_node(&root_node_key) {
+            Some(root_node) => self.ensure_expected_root(root_node.hash())?,
+            None => bail!("Root node is missing from the restored tree."),
+        }
         self.store.write_node_batch(&self.frozen_nodes)
     }
+
+    fn ensure_expected_root(&self, root_hash: [u8; 32]) -> Result<()> {
+        ensure!(
+            root_hash == self.expected_root_hash.0,
+            "Restored tree does not have the expected root hash. Actual: {:?}. Expected: {:?}.",
+            root_hash,
+            self.expected_root_hash,
+        );
+        Ok(())
+    }
 }
 
 /// The interface used with [`JellyfishMerkleRestore`], taken from the Diem `storage-interface` crate.
-- 
2.43.0


From 167645aaa4e27b405cac439f8bd86f556a28dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:46 +0000
Subject: [PATCH 13/16] fix: report keys that do not fit a recovered restore as
 an error

---
 jmt/src/restore.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 3322306..08386b0 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -84,6 +84,15 @@ impl InternalInfo {
         self.children[index] = Some(child_info);
     }
 
+    /// Whether the only child is a leaf, which no complete internal node has.
+    fn has_single_leaf(&self) -> bool {
+        let mut children = self.children.iter().flatten();
+        matches!(
+            (children.next(), children.next()),
+            (Some(ChildInfo::Leaf { .. }), None)
+        )
+    }
+
     /// Converts `self` to an internal node, assuming all of its children are already known and
     /// fully initialized.
     fn into_internal_node(
@@ -327,9 +336,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
+            self.add_one(key, value_hash)?;
             self.frozen_nodes.insert_value(self.version, key, value);
-
-            self.add_one(key, value_hash);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -345,14 +353,17 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            ensure!(
+                i < self.partial_nodes.len(),
+                "Key belongs below a node that is complete already.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -372,14 +383,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -395,6 +406,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -407,7 +420,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -460,7 +473,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -477,12 +490,24 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
+        // After a recovery the lowest partial node can have a single child, the rightmost leaf,
+        // until the key that shares this node with it comes.
+        if let Some(last_node) = self.partial_nodes.last() {
+            ensure!(
+                self.partial_nodes.len() <= num_remaining_partial_nodes
+                    || !last_node.has_single_leaf(),
+                "Key next to the rightmost leaf is missing.",
+            );
+        }
         self.freeze_previous_leaf();
         self.freeze_internal_nodes(num_remaining_partial_nodes);
+        Ok(())
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -703,7 +728,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         let root_node_key = NodeKey::new_empty_path(self.version);
         match self.frozen_nodes.get_node(&root_node_key) {
             Some(root_node) => self.ensure_expected_root(root_node.hash())?,
-- 
2.43.0


From 5f19d0c1c58b9b0690b64bc924a804b6e681331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 14/16] fix: create proofs on a reopened trie

---
 pmt/src/inner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index da87b20..762a443 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -249,7 +249,8 @@ where
 
         let mut path = result?;
         match self.root {
-            Node::Empty => {}
+            // The root of a reopened trie is loaded from the db, with the path.
+            Node::Empty | Node::Hash(_) => {}
             _ => path.push(self.root.clone()),
         }
 
-- 
2.43.0


From 8a85a08579abdabe946b9b2c89317a91c2de25a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:05 +0000
Subject: [PATCH 15/16] fix: a range proof with more than 256 siblings is
 refused, not a crash

---
 jmt/src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..85ae1ed 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,12 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 32c23611ff836313f035f6d15101e0327c9f64a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:00 +0000
Subject: [PATCH 16/16] fix: refuse a stored node that is only a reference to
 another node

A proof made of a long chain of such nodes overflowed the stack of the verifier.
---
 pmt/src/inner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 762a443..26e9ad1 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -879,6 +879,13 @@ where
             Some(value) => Some(self.decode_node(&value)?),
             None => None,
         };
+        // Stored nodes never are mere references; a long chain of them would
+        // exhaust the stack.
+        if let Some(Node::Hash(_)) = node {
+            return Err(TrieError::InvalidData(
+                "stored node is a reference to another node".to_string(),
+            ));
+        }
         Ok(node)
     }
 }
-- 
2.43.0


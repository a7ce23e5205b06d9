From 3c9da67d22246993b4f11e247bb9ed6b5fde3ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:48 +0000
Subject: [PATCH 01/22] fix: extending an unpacked tree must not panic when the
 last child is full

---
 banyan/src/forest/write.rs | 25 +++++++++++++++++++++----
 banyan/src/tree.rs         |  4 +++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/banyan/src/forest/write.rs b/banyan/src/forest/write.rs
index 49ce165..eb72d97 100644
--- a/banyan/src/forest/write.rs
+++ b/banyan/src/forest/write.rs
@@ -215,6 +215,9 @@ where
     /// extends an existing node with some values
     ///
     /// The result will have the max level `level`. `from` will contain all elements that did not fit.
+    ///
+    /// If the node is unpacked, it might not be possible to fill it, so there can be elements left
+    /// even though the result is not sealed.
     pub(crate) fn extend_above<V: WriteCbor>(
         &mut self,
         node: Option<&Index<T>>,
@@ -233,14 +236,18 @@ where
             self.leaf_from_iter(from, stream)?.into()
         };
         while (from.peek().is_some() || node.level() == 0) && node.level() < level {
+            if from.peek().is_some() && !node.sealed() {
+                // an unpacked node can not take the remaining elements, and
+                // must not become a child of a packed branch.
+                break;
+            }
             let level = node.level() + 1;
             node = self
                 .extend_branch(vec![node], level, from, stream, CreateMode::Packed)?
                 .into();
         }
-        if from.peek().is_some() {
+        if from.peek().is_some() && node.sealed() {
             assert!(node.level() == level);
-            assert!(node.sealed());
         } else {
             assert!(node.level() <= level);
         }
@@ -316,8 +323,18 @@ where
                     *last_child =
                         self.extend_above(Some(last_child), index.level - 1, from, stream)?;
                 }
-                self.extend_branch(children, index.level, from, stream, CreateMode::Packed)?
-                    .into()
+                let can_add_children = children
+                    .iter()
+                    .all(|child| child.sealed() && child.level() == index.level - 1);
+                if can_add_children {
+                    self.extend_branch(children, index.level, from, stream, CreateMode::Packed)?
+                        .into()
+                } else {
+                    // either all elements went into the last child, or this is an unpacked
+                    // branch, in which case the remaining elements are left to the caller.
+                    self.new_branch(&children, stream, CreateMode::Unpacked)?
+                        .into()
+                }
             }
             NodeInfo::PurgedBranch(_) | NodeInfo::PurgedLeaf(_) => {
                 // purged nodes can not be extended
diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..6472fe0 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -573,7 +573,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             from.by_ref(),
             tree.state_mut(),
         )?;
-        tree.set_index(Some(index));
+        // an unpacked tree can not always take all elements. Join what is left like extend_unpacked.
+        let index = self.extend_unpacked0(Some(&index), from, tree.state_mut())?;
+        tree.set_index(index);
         Ok(())
     }
 
-- 
2.43.0


From 6d8dc756aa1d93c95a338c053efc2a770cfda1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:30 +0000
Subject: [PATCH 02/22] fix: packing an already packed tree is a noop

---
 banyan/src/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 6472fe0..ba3d453 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -531,6 +531,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     /// ![packing illustration](https://ipfs.io/ipfs/QmaEDTjHSdCKyGQ3cFMCf73kE67NvffLA5agquLW5qSEVn/packing.jpg)
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
+        if self.is_packed(&initial)? {
+            return Ok(());
+        }
         let roots = self.roots(tree)?;
         self.tree_from_roots(roots, tree)?;
         let remainder: Vec<_> = self
-- 
2.43.0


From e8604a874f81944cf4f4cb721a5418a377d43cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:07 +0000
Subject: [PATCH 03/22] fix: a failing pack must not truncate the stream

---
 banyan/src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index ba3d453..5f4189d 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -535,13 +535,16 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             return Ok(());
         }
         let roots = self.roots(tree)?;
-        self.tree_from_roots(roots, tree)?;
+        // roll back to the initial tree unless everything succeeds
+        let mut tree = tree.transaction();
+        self.tree_from_roots(roots, &mut tree)?;
         let remainder: Vec<_> = self
             .collect_from(&initial, tree.count())?
             .into_iter()
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
-        self.extend(tree, remainder)?;
+        self.extend(&mut tree, remainder)?;
+        tree.commit();
         Ok(())
     }
 
-- 
2.43.0


From ad231367512da6c839f6c0184aa9ec570896d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:44 +0000
Subject: [PATCH 04/22] fix: Config::validate must reject a max_leaf_count of 0

---
 banyan/src/forest/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/banyan/src/forest/mod.rs b/banyan/src/forest/mod.rs
index c697611..9f1c3bc 100644
--- a/banyan/src/forest/mod.rs
+++ b/banyan/src/forest/mod.rs
@@ -245,6 +245,7 @@ impl Config {
     pub fn validate(&self) -> anyhow::Result<()> {
         anyhow::ensure!(self.max_summary_branches > 1);
         anyhow::ensure!(self.max_key_branches > 0);
+        anyhow::ensure!(self.max_leaf_count > 0);
         anyhow::ensure!(self.target_leaf_size > 0 && self.target_leaf_size <= 1024 * 1024);
         anyhow::ensure!(self.max_uncompressed_leaf_size <= 16 * 1024 * 1024);
         anyhow::ensure!(self.zstd_level >= 1 && self.zstd_level <= 22);
-- 
2.43.0


From a7d87ce795d229a7368716e1d6cfe70f44ac7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:03 +0000
Subject: [PATCH 05/22] fix: reverse streaming must not repeat an element after
 a failed read

---
 banyan/src/forest/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..32108cd 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the (inclusive) end offset from the start of what we got
+                            end_offset_ref
+                                .fetch_min(chunk.range.start.saturating_sub(1), Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0


From 23f6932a862894ce460220dfa15cc81f390e1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 06/22] fix: a tag that does not occur in a node must not
 discard the entire query

---
 banyan-utils/src/tags.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..16ceebb 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -1,4 +1,4 @@
-use crate::{tag_index::map_to_index_set, tag_index::TagIndex, tag_index::TagSet};
+use crate::{tag_index::TagIndex, tag_index::TagSet};
 use banyan::query::Query;
 use banyan::{index::*, TreeTypes};
 use libipld::{
@@ -202,14 +202,18 @@ impl DnfQuery {
             query: self
                 .0
                 .iter()
-                .map(|key| {
-                    map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
-                        index_set,
-                        time: key.time,
-                    })
+                .map(|key| TranslatedKey {
+                    // tags that do not occur in the table do not occur in any of the elements,
+                    // so they don't matter for either intersects or contains
+                    index_set: key
+                        .tags
+                        .iter()
+                        .filter_map(|t| keyseq.tags.tags.as_ref().binary_search(t).ok())
+                        .map(|i| i as u32)
+                        .collect(),
+                    time: key.time,
                 })
-                .collect::<Option<Vec<_>>>()
-                .unwrap_or_default(),
+                .collect(),
             seq: keyseq,
         }
     }
-- 
2.43.0


From e3e69b6464e90d7ec72c148538e0ae77e49532ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 07/22] fix: Dnf must not contain redundant conjunctions

---
 banyan-utils/src/tag_index.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bc815f6..314a2a7 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -340,21 +340,14 @@ impl Dnf {
 }
 
 fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
-    let mut to_remove = None;
-    for a in aa.iter() {
-        if a.is_subset(&b) {
-            // a is larger than b. E.g. x | x&y
-            // keep a, b is redundant
-            return;
-        } else if a.is_superset(&b) {
-            // a is smaller than b, E.g. x&y | x
-            // remove a, keep b
-            to_remove = Some(a.clone());
-        }
-    }
-    if let Some(r) = to_remove {
-        aa.remove(&r);
-    }
+    // a is larger than b. E.g. x | x&y
+    // keep a, b is redundant
+    if aa.iter().any(|a| a.is_subset(&b)) {
+        return;
+    }
+    // a is smaller than b, E.g. x&y | x
+    // remove all such a, keep b
+    aa.retain(|a| !a.is_superset(&b));
     aa.insert(b);
 }
 
-- 
2.43.0


From d038a8d14c8614ba074ba636200b3b16990105d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:04 +0000
Subject: [PATCH 08/22] fix: an error reply of the ipfs node must not be
 returned as block data

---
 banyan-utils/src/ipfs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index b875c4e..437b61f 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -14,7 +14,12 @@ pub fn block_get(key: &Cid) -> Result<Box<[u8]>> {
         &[("arg", format!("{}", key))],
     )?;
     let client = reqwest::blocking::Client::new();
-    let data: Vec<u8> = client.post(url).send()?.bytes()?.to_vec();
+    let data: Vec<u8> = client
+        .post(url)
+        .send()?
+        .error_for_status()?
+        .bytes()?
+        .to_vec();
     Ok(data.into())
 }
 
-- 
2.43.0


From 091ce09b39efc60f6c88c4c0511aded4f07364d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:04 +0000
Subject: [PATCH 09/22] fix: pack must not skip over a purged branch in the
 unpacked part

---
 banyan/src/forest/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..c199e0f 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -687,8 +687,12 @@ where
                     for child in branch.children.iter() {
                         self.roots0(secrets, child, level, res)?;
                     }
+                    return Ok(());
                 }
             }
+            // a leaf that is not a root, or a purged branch in the unpacked part.
+            // Nothing that comes after it can be a root, otherwise there would be a gap.
+            *level = -1;
         }
         Ok(())
     }
-- 
2.43.0


From 6abe9ca5bc985d605d8fb96154fa95ae60480335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 10/22] fix: index iteration must end after an error

---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..c1421e0 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // stop after the error instead of reporting it forever
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From 99b05bd29ba58e2b52e106fc0679394e1feb2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 11/22] fix: iter_filtered_reverse must return the elements in
 descending order

---
 banyan/src/forest/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index c199e0f..211dfc3 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -610,7 +610,8 @@ where
     ) -> impl Iterator<Item = Result<(u64, T::Key, V)>> {
         self.traverse_rev0(secrets, query, index, &|_| {})
             .flat_map(|res| match res {
-                Ok(chunk) => chunk.data.into_iter().map(Ok).left_iter(),
+                // the data inside of a chunk is in ascending order
+                Ok(chunk) => chunk.data.into_iter().rev().map(Ok).left_iter(),
                 Err(cause) => iter::once(Err(cause)).right_iter(),
             })
     }
-- 
2.43.0


From e3adf524ed9c7f51a96f3edbf6c2bcdfdf91afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 12/22] fix: a branch block without children is an error
 instead of a panic

---
 banyan/src/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 987eded..117f672 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -43,7 +43,7 @@ use crate::{
     store::{ReadOnlyStore, ZstdDagCborSeq},
     CipherOffset, Forest, Secrets,
 };
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 use cbor_data::codec::ReadCbor;
 use libipld::{
     cbor::{DagCbor, DagCborCodec},
@@ -446,6 +446,7 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
 ) -> Result<(Vec<Index<T>>, Range<u64>)> {
     let (seq, byte_range) = ZstdDagCborSeq::decrypt(ipld, key, nonce)?;
     let seq = seq.items_ipld::<Index<T>>()?;
+    ensure!(!seq.is_empty(), "branch without children");
     Ok((seq, byte_range))
 }
 
-- 
2.43.0


From 27c9bde00ae43758c81305050eea4dc9d90dc35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:46 +0000
Subject: [PATCH 13/22] fix: Config::validate must reject a
 max_uncompressed_leaf_size of 0

---
 banyan/src/forest/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/banyan/src/forest/mod.rs b/banyan/src/forest/mod.rs
index 9f1c3bc..c33ce33 100644
--- a/banyan/src/forest/mod.rs
+++ b/banyan/src/forest/mod.rs
@@ -247,6 +247,7 @@ impl Config {
         anyhow::ensure!(self.max_key_branches > 0);
         anyhow::ensure!(self.max_leaf_count > 0);
         anyhow::ensure!(self.target_leaf_size > 0 && self.target_leaf_size <= 1024 * 1024);
+        anyhow::ensure!(self.max_uncompressed_leaf_size > 0);
         anyhow::ensure!(self.max_uncompressed_leaf_size <= 16 * 1024 * 1024);
         anyhow::ensure!(self.zstd_level >= 1 && self.zstd_level <= 22);
         Ok(())
-- 
2.43.0


From 35147a110d7b75eb02ac88dd46f743df38b582ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 14/22] fix: a loaded tree must not be reported as packed
 unless it is

---
 banyan/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 5f4189d..a8e2ccb 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -121,8 +121,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
     }
 
     pub fn load_tree<V>(&self, secrets: Secrets, link: T::Link) -> Result<Tree<T, V>> {
-        // we pass in a predicate that makes the nodes sealed, since we don't care
-        let (index, byte_range) = self.create_index_from_link(&secrets, |_, _| true, link)?;
+        // without the config we don't know if the root is sealed. Don't claim that it is, since
+        // sealed nodes are considered packed without looking at their children.
+        let (index, byte_range) = self.create_index_from_link(&secrets, |_, _| false, link)?;
         // store the offset with the snapshot. Snapshots are immutable, so this won't change.
         Ok(Tree::new(index, secrets, byte_range.end))
     }
-- 
2.43.0


From f5455040e3b7b86d66adee89ae8ab3e4123baf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 15/22] fix: a printed expression must not lose the brackets
 around a nested disjunction

---
 banyan-utils/src/tag_index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index 314a2a7..90a0401 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -186,6 +186,8 @@ impl std::fmt::Display for Expression {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         fn child_to_string(x: &Expression) -> String {
             match x {
+                // the brackets might still be needed for the only child
+                Expression::Or(v) if v.len() == 1 => child_to_string(&v[0]),
                 Expression::Or(v) if v.len() > 1 => format!("( {} )", x),
                 _ => x.to_string(),
             }
-- 
2.43.0


From 743493bfbcfc2ba1fbb668fd975f054296106dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 16/22] fix: an unexpected cid from the ipfs node must be an
 error instead of a panic

---
 banyan-utils/src/ipfs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index 437b61f..66fb9f3 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -153,8 +153,7 @@ impl BlockWriter<Sha256Digest> for IpfsStore {
         let cid = std::thread::spawn(move || crate::ipfs::block_put(&data, 0x71, false))
             .join()
             .map_err(|_| anyhow!("join error!"))??;
-        assert!(cid.hash().code() == 0x12);
-        assert!(cid.hash().digest().len() == 32);
+        // this checks codec, hash algorithm and length
         cid.try_into()
     }
 }
-- 
2.43.0


From b10fb8f898cb7adf27831c5a61d509a1eaf92b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 17/22] fix: the passwords given to the cli must be used by all
 commands

---
 banyan-utils/src/bin/cli.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 89dd1fb..1d93e16 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -226,8 +226,8 @@ async fn build_tree(
     count: u64,
     unbalanced: bool,
     print_every: u64,
+    secrets: Secrets,
 ) -> anyhow::Result<StreamBuilder<TT, String>> {
-    let secrets = Secrets::default();
     let config = Config::debug();
     let mut tagger = Tagger::new();
     // function to add some arbitrary tags to test out tag querying and compression
@@ -405,7 +405,16 @@ async fn main() -> Result<()> {
                 "building a tree with {} batches of {} values, unbalanced: {}",
                 batches, count, unbalanced
             );
-            let tree = build_tree(&mut forest, base, batches, count, unbalanced, 1000).await?;
+            let tree = build_tree(
+                &mut forest,
+                base,
+                batches,
+                count,
+                unbalanced,
+                1000,
+                secrets,
+            )
+            .await?;
             forest.dump(&tree.snapshot())?;
         }
         Command::Bench { count } => {
@@ -470,7 +479,6 @@ async fn main() -> Result<()> {
                 .map(|tag| Key::filter_tags(TagSet::single(Tag::from(tag))))
                 .collect::<Vec<_>>();
             let query = DnfQuery(tags).boxed();
-            let secrets = Secrets::default();
             let config = Config::debug();
             let tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -482,7 +490,6 @@ async fn main() -> Result<()> {
             }
         }
         Command::Forget { root, before } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.retain(&mut tree, &OffsetRangeQuery::from(before..))?;
@@ -490,7 +497,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::Pack { root } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -501,7 +507,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::RecvStream { topic } => {
-            let secrets = Secrets::default();
             let links = pubsub_sub(&topic)?
                 .map_err(anyhow::Error::new)
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
-- 
2.43.0


From 1e9acda12f7e172f362c273a69e3f45f2884dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 18/22] fix: the cli must not hide errors while streaming

---
 banyan-utils/src/bin/cli.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 1d93e16..1808e75 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -389,7 +389,8 @@ async fn main() -> Result<()> {
         Command::Stream { root } => {
             let tree = forest.load_tree::<String>(secrets, root)?;
             let mut stream = forest.stream_filtered(&tree, AllQuery).enumerate();
-            while let Some((i, Ok(v))) = stream.next().await {
+            while let Some((i, v)) = stream.next().await {
+                let v = v?;
                 if i % 1000 == 0 {
                     println!("{:?}", v);
                 }
@@ -483,7 +484,8 @@ async fn main() -> Result<()> {
             let tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
             let mut stream = forest.stream_filtered(&tree.snapshot(), query).enumerate();
-            while let Some((i, Ok(v))) = stream.next().await {
+            while let Some((i, v)) = stream.next().await {
+                let v = v?;
                 if i % 1000 == 0 {
                     println!("{:?}", v);
                 }
-- 
2.43.0


From 34ef2d29ec77a8c3f5595a81fe4787f516baf2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 19/22] fix: pubsub messages must be received for any chunking
 of the response

The chunks of the body of a response are not aligned with the events in it.
Also report error responses and malformed events instead of panicking.
---
 banyan-utils/src/bin/cli.rs |  1 -
 banyan-utils/src/ipfs.rs    | 46 +++++++++++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 1808e75..a51f8b5 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -510,7 +510,6 @@ async fn main() -> Result<()> {
         }
         Command::RecvStream { topic } => {
             let links = pubsub_sub(&topic)?
-                .map_err(anyhow::Error::new)
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
                 .and_then(|data| future::ready(Sha256Digest::from_str(&data)));
             let forest2 = forest.clone();
diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index 66fb9f3..5b62a34 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -76,7 +76,40 @@ struct IpfsPubsubEventIo {
     _topic_ids: IgnoredAny,
 }
 
-pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<u8>>>> {
+/// Extract the data of the events from the body of a pubsub/sub response.
+///
+/// The boundaries of the chunks do not have to coincide with the boundaries of events.
+fn pubsub_events<B: AsRef<[u8]>>(
+    chunks: impl Stream<Item = reqwest::Result<B>>,
+) -> impl Stream<Item = Result<Vec<u8>>> {
+    let state = (Box::pin(chunks), Vec::new());
+    futures::stream::try_unfold(state, |(mut chunks, mut buffer)| async move {
+        loop {
+            let (event, used) = {
+                let mut events =
+                    serde_json::Deserializer::from_slice(&buffer).into_iter::<IpfsPubsubEventIo>();
+                let event = events.next().transpose();
+                (event, events.byte_offset())
+            };
+            let incomplete = match event {
+                Ok(Some(event)) => {
+                    buffer.drain(..used);
+                    return Ok(Some((event.data.0, (chunks, buffer))));
+                }
+                Ok(None) => None,
+                Err(cause) if cause.is_eof() => Some(cause),
+                Err(cause) => return Err(cause.into()),
+            };
+            match (chunks.try_next().await?, incomplete) {
+                (Some(chunk), _) => buffer.extend_from_slice(chunk.as_ref()),
+                (None, None) => return Ok(None),
+                (None, Some(cause)) => return Err(cause.into()),
+            }
+        }
+    })
+}
+
+pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = Result<Vec<u8>>>> {
     let url = reqwest::Url::parse_with_params(
         "http://localhost:5001/api/v0/pubsub/sub",
         &[("arg", topic)],
@@ -85,15 +118,10 @@ pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<
     let data = client
         .post(url)
         .send()
+        .map(|response| response.and_then(|response| response.error_for_status()))
         .map(|response| match response {
-            Ok(response) => response
-                .bytes_stream()
-                .map_ok(|bytes| {
-                    let data: IpfsPubsubEventIo = serde_json::from_slice(&bytes).unwrap();
-                    data.data.0
-                })
-                .left_stream(),
-            Err(cause) => futures::stream::once(future::err(cause)).right_stream(),
+            Ok(response) => pubsub_events(response.bytes_stream()).left_stream(),
+            Err(cause) => futures::stream::once(future::err(cause.into())).right_stream(),
         })
         .flatten_stream();
     Ok(data)
-- 
2.43.0


From 7090c0203f2c8863fff63771f5eee9bf342ae898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:07 +0000
Subject: [PATCH 20/22] fix: pubsub_pub must report errors of the node

---
 banyan-utils/src/ipfs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index 5b62a34..b0ca713 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -136,7 +136,8 @@ pub async fn pubsub_pub(topic: &str, data: &[u8]) -> Result<()> {
         topic, data
     ))?;
     let client = reqwest::Client::new();
-    let _ = client.post(url).send().await?.bytes().await?.to_vec();
+    let response = client.post(url).send().await?.error_for_status()?;
+    let _ = response.bytes().await?;
     Ok(())
 }
 
-- 
2.43.0


From 96e20248baad0e383f23b7a702497b157a00a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:34 +0000
Subject: [PATCH 21/22] fix: recv-stream must report a failed subscription

---
 banyan-utils/src/bin/cli.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index a51f8b5..c515f7b 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -2,8 +2,9 @@ use banyan::TreeTypes;
 use futures::future::poll_fn;
 use futures::prelude::*;
 use ipfs_sqlite_block_store::BlockStore;
+use parking_lot::Mutex;
 
-use std::{collections::BTreeMap, convert::TryFrom, str::FromStr, time::Duration};
+use std::{collections::BTreeMap, convert::TryFrom, str::FromStr, sync::Arc, time::Duration};
 use structopt::StructOpt;
 use tracing::Level;
 
@@ -509,8 +510,13 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::RecvStream { topic } => {
-            let links = pubsub_sub(&topic)?
-                .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
+            let failure = Arc::new(Mutex::new(None));
+            let failure2 = failure.clone();
+            let messages = pubsub_sub(&topic)?.filter_map(move |message| {
+                future::ready(message.map_err(|cause| *failure2.lock() = Some(cause)).ok())
+            });
+            let links = messages
+                .map(|data| String::from_utf8(data).map_err(anyhow::Error::new))
                 .and_then(|data| future::ready(Sha256Digest::from_str(&data)));
             let forest2 = forest.clone();
             let trees = links.filter_map(move |link| {
@@ -525,6 +531,11 @@ async fn main() -> Result<()> {
             while let Some(ev) = s.next().await {
                 println!("{:?}", ev);
             }
+            // the stream also ends when the subscription fails
+            let failure = failure.lock().take();
+            if let Some(cause) = failure {
+                return Err(cause);
+            }
         }
         Command::Repair { root } => {
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
-- 
2.43.0


From 2358c0ff9a983d8349d3a8b6f0e6c9c8ef6edcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 22/22] fix: print the size of the values of a purged leaf
 under its own name

---
 banyan/src/index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 117f672..44baebd 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -418,7 +418,7 @@ impl<T: TreeTypes, R> Display for NodeInfo<T, R> {
             Self::PurgedLeaf(index) => {
                 write!(
                     f,
-                    "PurgedLeaf(count={}, key_bytes={}, sealed={})",
+                    "PurgedLeaf(count={}, value_bytes={}, sealed={})",
                     index.keys.count(),
                     index.value_bytes,
                     index.sealed,
-- 
2.43.0


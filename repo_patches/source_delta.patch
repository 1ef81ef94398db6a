From f55de75149cf35f2fd40a723b1b2f99e6857ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 01/51] fix: linear graph storage returned wrong nodes for
 inverse search with exclusive or inverted range

---
 core/src/graph/storage/linear.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index a5a6bca..3ebff5b 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -241,17 +241,17 @@ where
             let max_distance = match max_distance {
                 std::ops::Bound::Unbounded => 0,
                 std::ops::Bound::Included(max_distance) => offset.saturating_sub(max_distance),
-                std::ops::Bound::Excluded(max_distance) => offset.saturating_sub(max_distance + 1),
+                std::ops::Bound::Excluded(max_distance) => {
+                    offset.saturating_sub(max_distance.saturating_sub(1))
+                }
             };
 
-            if let Some(min_distance) = offset.checked_sub(min_distance) {
-                if min_distance < chain.len() && max_distance <= min_distance {
-                    // return all entries in the chain between min_distance..max_distance (inclusive)
-                    return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
-                } else if max_distance < chain.len() {
-                    // return all entries in the chain between min_distance..max_distance
-                    return Box::new(chain[max_distance..chain.len()].iter().map(|n| Ok(*n)));
-                }
+            if let Some(min_distance) = offset.checked_sub(min_distance)
+                && min_distance < chain.len()
+                && max_distance <= min_distance
+            {
+                // return all entries in the chain between min_distance..max_distance (inclusive)
+                return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
             }
         }
         Box::new(std::iter::empty())
-- 
2.43.0


From 25bc7d05ca1d91478d7f5e5b6df89179a7a18784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 02/51] fix: pre/post order storage only considered the first
 path when checking if nodes are connected

---
 core/src/graph/storage/prepost.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index 54c382b..a8a3a5a 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -453,7 +453,9 @@ where
                             && source_level <= target_level
                         {
                             let diff_level = target_level - source_level;
-                            return Ok(min_distance <= diff_level && diff_level <= max_distance);
+                            if min_distance <= diff_level && diff_level <= max_distance {
+                                return Ok(true);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 54e5c775cb11507571d0405783e93fe8195cd433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 03/51] fix: distance between nodes was the length of the first
 and not of the shortest path

---
 core/src/graph/storage/adjacencylist.rs   | 16 +++++++---------
 core/src/graph/storage/dense_adjacency.rs | 17 +++++++----------
 core/src/graph/storage/disk_adjacency.rs  | 17 +++++++----------
 3 files changed, 21 insertions(+), 29 deletions(-)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6b23a55..2b8756f 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -207,16 +207,14 @@ impl GraphStorage for AdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
+        // The depth-first search does not visit the paths ordered by their
+        // length, thus check all of them to find the shortest one.
+        CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
             .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+            .map_ok(|x| x.distance)
+            .fold_ok(None, |shortest: Option<usize>, d| {
+                Some(shortest.map_or(d, |s| s.min(d)))
+            })
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/dense_adjacency.rs b/core/src/graph/storage/dense_adjacency.rs
index 66c6413..1fca6e1 100644
--- a/core/src/graph/storage/dense_adjacency.rs
+++ b/core/src/graph/storage/dense_adjacency.rs
@@ -127,17 +127,14 @@ impl GraphStorage for DenseAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
+        // The depth-first search does not visit the paths ordered by their
+        // length, thus check all of them to find the shortest one.
+        CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
             .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+            .map_ok(|x| x.distance)
+            .fold_ok(None, |shortest: Option<usize>, d| {
+                Some(shortest.map_or(d, |s| s.min(d)))
+            })
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index d3e9924..bdaedc1 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -216,17 +216,14 @@ impl GraphStorage for DiskAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
+        // The depth-first search does not visit the paths ordered by their
+        // length, thus check all of them to find the shortest one.
+        CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
             .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+            .map_ok(|x| x.distance)
+            .fold_ok(None, |shortest: Option<usize>, d| {
+                Some(shortest.map_or(d, |s| s.min(d)))
+            })
     }
     fn is_connected(
         &self,
-- 
2.43.0


From c623bd627818879a6ff18680190f4a9b8c1cd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 04/51] fix: disk path storage kept old edge annotations when
 copying another component

---
 core/src/graph/storage/disk_path.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index a5a668c..d1ea604 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -280,6 +280,7 @@ impl GraphStorage for DiskPathStorage {
         orig: &dyn GraphStorage,
     ) -> Result<()> {
         self.inverse_edges.clear();
+        self.annos.clear()?;
 
         // Create a new file which is large enough to contain the paths for all nodes.
         let max_node_id = orig
-- 
2.43.0


From e47591a5cbf7f07e6c39ac1da824981dc98995c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 05/51] fix: cycles in a part of the component without any root
 node were not detected

---
 core/src/graph/storage/adjacencylist.rs  | 8 ++++++++
 core/src/graph/storage/disk_adjacency.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 2b8756f..43d7238 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -367,6 +367,7 @@ impl WriteableGraphStorage for AdjacencyListStorage {
 
         // find all root nodes
         let mut roots: BTreeSet<NodeID> = BTreeSet::new();
+        let mut not_visited: BTreeSet<NodeID>;
         {
             let mut all_nodes: BTreeSet<NodeID> = BTreeSet::new();
             for (source, outgoing) in &self.edges {
@@ -385,6 +386,7 @@ impl WriteableGraphStorage for AdjacencyListStorage {
                 }
             }
             stats.nodes = all_nodes.len();
+            not_visited = all_nodes;
         }
 
         if !self.edges.is_empty() {
@@ -436,12 +438,18 @@ impl WriteableGraphStorage for AdjacencyListStorage {
                 for step in &mut dfs {
                     let step = step?;
                     number_of_visits += 1;
+                    not_visited.remove(&step.node);
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
                 if dfs.is_cyclic() {
                     stats.cyclic = true;
                 }
             }
+            if !not_visited.is_empty() {
+                // nodes which can't be reached from any root node must be part
+                // of (or a descendant of) a cycle
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index bdaedc1..8797d8f 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -365,6 +365,7 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
 
         // find all root nodes
         let mut roots: BTreeSet<NodeID> = BTreeSet::new();
+        let mut not_visited: BTreeSet<NodeID>;
         {
             let mut all_nodes: BTreeSet<NodeID> = BTreeSet::new();
             for edge in self.edges.iter()? {
@@ -382,6 +383,7 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
                 }
             }
             stats.nodes = all_nodes.len();
+            not_visited = all_nodes;
         }
 
         let edges_empty = self.edges.is_empty()?;
@@ -434,12 +436,18 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
                 for step in &mut dfs {
                     let step = step?;
                     number_of_visits += 1;
+                    not_visited.remove(&step.node);
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
                 if dfs.is_cyclic() {
                     stats.cyclic = true;
                 }
             }
+            if !not_visited.is_empty() {
+                // nodes which can't be reached from any root node must be part
+                // of (or a descendant of) a cycle
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
-- 
2.43.0


From 9a66349fd2091ae0f7ee77839443b613837c675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 06/51] fix: clearing an in-memory annotation storage did not
 reset the number of annotations

---
 core/src/annostorage/inmemory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index b97abed..de092af 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -64,6 +64,7 @@ impl<T: Ord + Hash + Clone + serde::Serialize + serde::de::DeserializeOwned + De
         self.histogram_bounds.clear();
         self.largest_item = None;
         self.anno_values.clear();
+        self.total_number_of_annos = 0;
     }
 
     fn create_sparse_anno(&mut self, orig: Annotation) -> Result<SparseAnnotation> {
-- 
2.43.0


From 16ec52b0c3bf7eee3f7fb560178b0f10b0d78481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 07/51] fix: disk map reported deleted entries as contained
 after they have been evicted to disk

---
 core/src/util/disk_collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index e1b1996..428e5bd 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -161,9 +161,11 @@ where
 
         // Check C1 (BTree disk index)
         if let Some(c1) = &self.c1
-            && c1.contains_key(key)?
+            && let Some(entry) = c1.get(key)?
         {
-            return Ok(true);
+            // An existing entry can also be a tombstone for a deleted value,
+            // in this case do not query C2.
+            return Ok(entry.is_some());
         }
 
         // Use a iterator on the single disk to check if there is an entry with this, without getting the value.
-- 
2.43.0


From e51dcf975c07aee7c035465fb97e3d618427c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 08/51] Guarded hook: eviction limit of disk maps for the model
 checker

---
 core/src/lib.rs                   |  3 +++
 core/src/mc.rs                    | 15 +++++++++++++++
 core/src/util/disk_collections.rs |  4 ++++
 3 files changed, 22 insertions(+)
 create mode 100644 core/src/mc.rs

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8154fc6..0df4c01 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 #![deny(
     clippy::panic,
     clippy::panic_in_result_fn,
@@ -18,6 +19,8 @@ pub mod annostorage;
 pub mod dfs;
 pub mod errors;
 pub mod graph;
+#[cfg(graphannis_mc)]
+pub mod mc;
 pub mod serializer;
 pub mod types;
 pub mod util;
diff --git a/core/src/mc.rs b/core/src/mc.rs
new file mode 100644
index 0000000..d8823d7
--- /dev/null
+++ b/core/src/mc.rs
@@ -0,0 +1,15 @@
+//! Instrumentation for the model checker, only compiled with `--cfg graphannis_mc`.
+use std::cell::Cell;
+
+thread_local! {
+    static EVICTION_LIMIT: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// Override the maximal number of items a disk map holds in main memory for the current thread.
+pub fn set_eviction_limit(limit: Option<usize>) {
+    EVICTION_LIMIT.with(|l| l.set(limit));
+}
+
+pub fn eviction_limit() -> Option<usize> {
+    EVICTION_LIMIT.with(|l| l.get())
+}
diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index 428e5bd..66b76ea 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -355,6 +355,10 @@ where
         let evict_c0 = match self.eviction_strategy {
             EvictionStrategy::MaximumItems(n) => self.c0.len() >= n,
         };
+        #[cfg(graphannis_mc)]
+        let evict_c0 = crate::mc::eviction_limit()
+            .map(|limit| self.c0.len() >= limit)
+            .unwrap_or(evict_c0);
 
         if evict_c0 {
             self.compact()?;
-- 
2.43.0


From 1985bd918002fdb9f0e556a16984d7ab80ec008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 09/51] fix: replacing an annotation value in the on-disk
 annotation storage left the old value searchable

---
 core/src/annostorage/ondisk.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index d6b13d5..822e71d 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -364,11 +364,28 @@ where
             .largest_item
             .as_ref()
             .is_none_or(|largest_item| item <= *largest_item);
-        let already_existed =
-            item_smaller_than_largest && self.by_container.contains_key(&by_container_key)?;
+        let existing_value = if item_smaller_than_largest {
+            self.by_container
+                .get(&by_container_key)?
+                .map(|existing| existing.into_owned())
+        } else {
+            None
+        };
+        let already_existed = existing_value.is_some();
         self.by_container
             .insert(by_container_key, anno.val.clone())?;
 
+        // Remove the index entry for the replaced value
+        if let Some(existing_value) = existing_value
+            && existing_value != anno.val
+        {
+            self.by_anno_qname.remove(&create_by_anno_qname_key(
+                item.clone(),
+                anno_key_symbol,
+                &existing_value,
+            ))?;
+        }
+
         // To save some space, insert an boolean value as a marker value
         // (all information is part of the key already)
         self.by_anno_qname.insert(
-- 
2.43.0


From 4b45cb8733855a2bcd8878f11a53e7f1fb1c3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 10/51] fix: on-disk annotation storage returned the least
 frequent instead of the most frequent values first

---
 core/src/annostorage/ondisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 822e71d..12adb96 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -1048,6 +1048,7 @@ where
                 .map(|(val, count)| (count, Cow::Owned(val)))
                 .collect();
             values_with_count.sort();
+            values_with_count.reverse();
             let result = values_with_count
                 .into_iter()
                 .map(|(_count, val)| val)
-- 
2.43.0


From 3d39a238317976936c55c98c0f4ddf889f1fc4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 11/51] fix: regular expression search in the on-disk
 annotation storage failed if alternatives share the first byte of a
 multi-byte character

---
 core/src/annostorage/ondisk.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 12adb96..9583cdd 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -774,7 +774,13 @@ where
                 let prefix_bytes = regex_literal_sequence
                     .map(|seq| Vec::from(seq.longest_common_prefix().unwrap_or_default()))
                     .unwrap_or_default();
-                let prefix = try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes));
+                // The common prefix can end in the middle of a multi-byte character, only use the complete ones
+                let prefix = match std::str::from_utf8(&prefix_bytes) {
+                    Ok(prefix) => prefix,
+                    Err(e) => {
+                        try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes[..e.valid_up_to()]))
+                    }
+                };
 
                 let it = self
                     .matching_items_by_prefix(namespace, name, prefix.to_string())
-- 
2.43.0


From b7b4483e4fbbedb63ca49ec48dbff6eb68cbd9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 12/51] fix: on-disk annotation search confused values
 containing NUL and missed values starting with U+10FFFF

---
 core/src/annostorage/ondisk.rs | 50 ++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 9583cdd..0470bbd 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -93,6 +93,21 @@ fn create_by_anno_qname_key<T: FixedSizeKeySerializer>(
     result
 }
 
+/// Creates an exclusive upper bound for all keys of the `by_anno_qname` tree whose value starts with the given prefix.
+///
+/// This uses a byte which is never part of a valid UTF-8 string and thus larger than any remaining part of the value.
+fn create_by_anno_qname_upper_bound(anno_key_symbol: usize, value_prefix: &str) -> ByteBuf {
+    let mut result: ByteBuf = ByteBuf::from(anno_key_symbol.create_key().to_vec());
+    result.extend(value_prefix.as_bytes());
+    result.push(u8::MAX);
+    result
+}
+
+/// Returns the length in bytes of a key of the `by_anno_qname` tree with the given value.
+fn by_anno_qname_key_len<T: FixedSizeKeySerializer>(anno_value: &str) -> usize {
+    std::mem::size_of::<usize>() + anno_value.len() + 1 + T::key_size()
+}
+
 impl<T> AnnoStorageImpl<T>
 where
     T: FixedSizeKeySerializer
@@ -200,15 +215,16 @@ where
                 let lower_bound =
                     create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, lower_bound_value);
 
-                let upper_bound_value = if let Some(value) = &value {
-                    Cow::Borrowed(value)
+                let upper_bound = if let Some(value) = &value {
+                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, value)
                 } else {
-                    Cow::Owned(std::char::MAX.to_string())
+                    create_by_anno_qname_upper_bound(anno_key_symbol, "")
                 };
-
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_bound_value);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+                // Values can contain the separator character, but then the length of the key is different
+                let key_len = value.as_ref().map(|v| by_anno_qname_key_len::<T>(v));
+                self.by_anno_qname
+                    .range(lower_bound..upper_bound)
+                    .filter_ok(move |(data, _)| key_len.is_none_or(|len| data.len() == len))
             })
             .fuse()
             .map(move |item| match item {
@@ -256,10 +272,7 @@ where
             .flat_map(move |anno_key_symbol| {
                 let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, &prefix);
 
-                let mut upper_val = prefix.clone();
-                upper_val.push(std::char::MAX);
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_val);
+                let upper_bound = create_by_anno_qname_upper_bound(anno_key_symbol, &prefix);
                 self.by_anno_qname.range(lower_bound..upper_bound)
             })
             .fuse()
@@ -328,8 +341,7 @@ where
         if let Some(anno_key_symbol) = self.anno_key_symbols.get_symbol(anno_key) {
             let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, "");
 
-            let upper_bound =
-                create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &std::char::MAX.to_string());
+            let upper_bound = create_by_anno_qname_upper_bound(anno_key_symbol, "");
 
             Box::new(self.by_anno_qname.range(lower_bound..upper_bound))
         } else {
@@ -1196,7 +1208,11 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
             let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
             let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
 
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let key_len = by_anno_qname_key_len::<NodeID>(node_name);
+            let mut results = self
+                .by_anno_qname
+                .range(lower_bound..=upper_bound)
+                .filter_ok(|(data, _)| data.len() == key_len);
             if let Some(item) = results.next() {
                 let (data, _) = item?;
                 let item_id = NodeID::parse_key(&data[data.len() - NodeID::key_size()..])?;
@@ -1211,7 +1227,11 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
             let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
             let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
 
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let key_len = by_anno_qname_key_len::<NodeID>(node_name);
+            let mut results = self
+                .by_anno_qname
+                .range(lower_bound..=upper_bound)
+                .filter_ok(|(data, _)| data.len() == key_len);
             return Ok(results.next().is_some());
         }
         Ok(false)
-- 
2.43.0


From 53a987ece4efd4e794821e34fa453a5ce62f9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 13/51] fix: loading an on-disk annotation storage kept changes
 made before and used a wrong maximal value size for its temporary index

---
 core/src/annostorage/ondisk.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 0470bbd..d8e4210 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -38,7 +38,6 @@ where
 {
     by_container: DiskMap<ByteBuf, String>,
     by_anno_qname: DiskMap<ByteBuf, bool>,
-    location: PathBuf,
     /// A handle to a temporary directory. This must be part of the struct because the temporary directory will
     /// be deleted when this handle is dropped.
     #[allow(dead_code)]
@@ -141,7 +140,6 @@ where
                 anno_key_sizes: BTreeMap::new(),
                 largest_item: None,
                 histogram_bounds: BTreeMap::new(),
-                location: path.clone(),
                 temp_dir: None,
                 phantom: std::marker::PhantomData,
             };
@@ -176,7 +174,6 @@ where
                 anno_key_sizes: BTreeMap::new(),
                 largest_item: None,
                 histogram_bounds: BTreeMap::new(),
-                location: tmp_dir.as_ref().to_path_buf(),
                 temp_dir: Some(tmp_dir),
                 phantom: std::marker::PhantomData,
             })
@@ -1154,20 +1151,18 @@ where
     fn load_annotations_from(&mut self, location: &Path) -> Result<()> {
         let location = location.join(SUBFOLDER_NAME);
 
-        if !self.location.eq(&location) {
-            self.by_container = DiskMap::new(
-                Some(&location.join("by_container.bin")),
-                EVICTION_STRATEGY,
-                BLOCK_CACHE_CAPACITY,
-                BtreeConfig::default().fixed_value_size(T::key_size() + 9),
-            )?;
-            self.by_anno_qname = DiskMap::new(
-                Some(&location.join("by_anno_qname.bin")),
-                EVICTION_STRATEGY,
-                BLOCK_CACHE_CAPACITY,
-                BtreeConfig::default(),
-            )?;
-        }
+        self.by_container = DiskMap::new(
+            Some(&location.join("by_container.bin")),
+            EVICTION_STRATEGY,
+            BLOCK_CACHE_CAPACITY,
+            BtreeConfig::default().fixed_key_size(T::key_size() + 16),
+        )?;
+        self.by_anno_qname = DiskMap::new(
+            Some(&location.join("by_anno_qname.bin")),
+            EVICTION_STRATEGY,
+            BLOCK_CACHE_CAPACITY,
+            BtreeConfig::default(),
+        )?;
 
         // load internal helper fields
         let f = std::fs::File::open(location.join("custom.bin"))?;
-- 
2.43.0


From c5c645c5d469992d778bac1a83a2d737e323c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 14/51] fix: updates used outdated node names if a node is
 renamed in the same update list

---
 core/src/graph/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 5d1f277..9558642 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -483,7 +483,12 @@ impl<CT: ComponentType> Graph<CT> {
                             },
                             val: anno_value.into(),
                         };
+                        let renamed = anno.key == *NODE_NAME_KEY.as_ref();
                         self.node_annos.insert(existing_node_id, anno)?;
+                        if renamed {
+                            // The cached mapping from names to IDs is outdated
+                            node_id_cache.clear();
+                        }
                     }
                 }
                 UpdateEvent::DeleteNodeLabel {
@@ -501,6 +506,10 @@ impl<CT: ComponentType> Graph<CT> {
                         };
                         self.node_annos
                             .remove_annotation_for_item(&existing_node_id, &key)?;
+                        if key == *NODE_NAME_KEY.as_ref() {
+                            // The cached mapping from names to IDs is outdated
+                            node_id_cache.clear();
+                        }
                     }
                 }
                 UpdateEvent::AddEdge {
-- 
2.43.0


From 061142b3d9db3156e947584b3bd2540e26628f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 15/51] fix: deleting a node did not delete its edges in
 components added by the same update list

---
 core/src/graph/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 9558642..fbf9ffb 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -403,8 +403,6 @@ impl<CT: ComponentType> Graph<CT> {
     where
         F: Fn(&str),
     {
-        let all_components = self.get_all_components(None, None);
-
         let mut update_graph_index = ComponentType::init_update_graph_index(self)?;
         // Cache the expensive mapping of node names to IDs
         let cache_size = NonZeroUsize::new(1_000).ok_or(GraphAnnisCoreError::ZeroCacheSize)?;
@@ -455,9 +453,11 @@ impl<CT: ComponentType> Graph<CT> {
                         // delete all annotations
                         self.node_annos.remove_item(&existing_node_id)?;
 
-                        // delete all edges pointing to this node either as source or target
-                        for c in all_components.iter() {
-                            if let Ok(gs) = self.get_or_create_writable(c) {
+                        // Delete all edges pointing to this node either as
+                        // source or target. Also consider the components which
+                        // have been added by previous events of this update.
+                        for c in self.get_all_components(None, None) {
+                            if let Ok(gs) = self.get_or_create_writable(&c) {
                                 gs.delete_node(existing_node_id)?;
                             }
                         }
-- 
2.43.0


From 88f0ba453266d1500e416d9aa10f83bb886b5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 16/51] fix: deleting many edges of an on-disk adjacency list
 failed because tombstones are smaller than the configured fixed value size

---
 core/src/graph/storage/disk_adjacency.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index 8797d8f..931a8c6 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -151,7 +151,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
                 DEFAULT_BLOCK_CACHE_CAPACITY,
                 BtreeConfig::default()
                     .fixed_key_size(std::mem::size_of::<NodeID>() * 2)
-                    .fixed_value_size(2),
+                    .max_value_size(2),
             )?,
             inverse_edges: DiskMap::new(
                 Some(&location.join("inverse_edges.bin")),
@@ -159,7 +159,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
                 DEFAULT_BLOCK_CACHE_CAPACITY,
                 BtreeConfig::default()
                     .fixed_key_size(std::mem::size_of::<NodeID>() * 2)
-                    .fixed_value_size(2),
+                    .max_value_size(2),
             )?,
             annos: AnnoStorageImpl::new(Some(
                 location.join(crate::annostorage::ondisk::SUBFOLDER_NAME),
-- 
2.43.0


From 0b042a2beea9a3b0e1fb6652a8156fd621dfbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 17/51] fix: deleting edges or changing edge labels of a
 non-existing component created this component

---
 core/src/graph/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index fbf9ffb..60b8936 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -551,11 +551,12 @@ impl<CT: ComponentType> Graph<CT> {
                         Cow::Borrowed(target_node),
                         &mut node_id_cache,
                     )?;
+                    // Do not create the component if it does not exist yet
                     if let (Some(source), Some(target)) = (source, target)
                         && let Ok(ctype) = CT::from_str(component_type)
+                        && let c = Component::new(ctype, layer.into(), component_name.into())
+                        && self.components.contains_key(&c)
                     {
-                        let c = Component::new(ctype, layer.into(), component_name.into());
-
                         let gs = self.get_or_create_writable(&c)?;
                         gs.delete_edge(&Edge { source, target })?;
                     }
@@ -578,10 +579,12 @@ impl<CT: ComponentType> Graph<CT> {
                         Cow::Borrowed(target_node),
                         &mut node_id_cache,
                     )?;
+                    // Do not create the component if it does not exist yet
                     if let (Some(source), Some(target)) = (source, target)
                         && let Ok(ctype) = CT::from_str(component_type)
+                        && let c = Component::new(ctype, layer.into(), component_name.into())
+                        && self.components.contains_key(&c)
                     {
-                        let c = Component::new(ctype, layer.into(), component_name.into());
                         let gs = self.get_or_create_writable(&c)?;
                         // only add label if the edge already exists
                         let e = Edge { source, target };
@@ -614,10 +617,12 @@ impl<CT: ComponentType> Graph<CT> {
                         Cow::Borrowed(target_node),
                         &mut node_id_cache,
                     )?;
+                    // Do not create the component if it does not exist yet
                     if let (Some(source), Some(target)) = (source, target)
                         && let Ok(ctype) = CT::from_str(component_type)
+                        && let c = Component::new(ctype, layer.into(), component_name.into())
+                        && self.components.contains_key(&c)
                     {
-                        let c = Component::new(ctype, layer.into(), component_name.into());
                         let gs = self.get_or_create_writable(&c)?;
                         // only add label if the edge already exists
                         let e = Edge { source, target };
-- 
2.43.0


From 53a07b3c13ed835a32ecdbf0690cfd134adfa45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 18/51] fix: updates of annotation graphs failed for events
 referring to a non-existing node

---
 graphannis/src/annis/db/aql/model.rs | 52 ++++++++++++++++------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 4ad8807..7970e64 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -1,6 +1,5 @@
 use crate::{
     annis::{db::token_helper::TokenHelper, util::quicksort},
-    errors::GraphAnnisError,
     graph::{Edge, EdgeContainer, GraphStorage, NodeID},
 };
 use facet::Facet;
@@ -187,16 +186,15 @@ impl AQLUpdateGraphIndex {
         &mut self,
         node_name: Cow<String>,
         graph: &AnnotationGraph,
-    ) -> std::result::Result<NodeID, ComponentTypeError> {
+    ) -> std::result::Result<Option<NodeID>, ComponentTypeError> {
         if let Some(id) = self.cached_node_ids.get(&node_name)? {
-            return Ok(*id);
+            return Ok(Some(*id));
         } else if let Some(id) = graph.get_node_annos().get_node_id_from_name(&node_name)? {
             self.cached_node_ids.insert(node_name.to_string(), id)?;
-            return Ok(id);
+            return Ok(Some(id));
         }
-        Err(ComponentTypeError(
-            GraphAnnisError::NoSuchNodeID(node_name.to_string()).into(),
-        ))
+        // Events referring to non-existing nodes are ignored
+        Ok(None)
     }
 
     fn calculate_invalidated_nodes_by_coverage(
@@ -471,9 +469,10 @@ impl ComponentType for AnnotationComponentType {
     ) -> std::result::Result<(), ComponentTypeError> {
         match update {
             UpdateEvent::DeleteNode { node_name } if !index.graph_without_nodes => {
-                let existing_node_id =
-                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?;
-                if !index.invalid_nodes.contains_key(&existing_node_id)? {
+                if let Some(existing_node_id) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                    && !index.invalid_nodes.contains_key(&existing_node_id)?
+                {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
             }
@@ -492,15 +491,19 @@ impl ComponentType for AnnotationComponentType {
                         || ctype == AnnotationComponentType::LeftToken
                         || ctype == AnnotationComponentType::RightToken
                     {
-                        let source = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?;
-                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        if let Some(source) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
+                        {
+                            index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        }
                     }
 
                     if ctype == AnnotationComponentType::Ordering {
-                        let target = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?;
-                        index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                        if let Some(target) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
+                        {
+                            index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                        }
                     }
                 }
             }
@@ -541,16 +544,19 @@ impl ComponentType for AnnotationComponentType {
                     || ctype == AnnotationComponentType::LeftToken
                     || ctype == AnnotationComponentType::RightToken
                 {
-                    let source =
-                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?;
-
-                    index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    if let Some(source) =
+                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?
+                    {
+                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                    }
                 }
 
                 if ctype == AnnotationComponentType::Ordering {
-                    let target =
-                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?;
-                    index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    if let Some(target) =
+                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?
+                    {
+                        index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From fb060d00431aaed75bff202307b1e1d2f426ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 19/51] fix: recovering from the backup of an aborted save
 wrote the corpus into the wrong folder and deleted the only complete version

---
 core/src/graph/mod.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 60b8936..fbc063b 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -312,17 +312,8 @@ impl<CT: ComponentType> Graph<CT> {
         }
 
         if load_from_backup {
-            // save the current corpus under the actual location
-            self.save_to(&location.join("current"))?;
-            // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
-            let tmp_dir = tempfile::Builder::new()
-                .prefix("temporary-graphannis-backup")
-                .tempdir_in(location)?;
-            // the target directory is created and can cause issues on windows: delete it first
-            std::fs::remove_dir(tmp_dir.path())?;
-            std::fs::rename(&backup, tmp_dir.path())?;
-            // remove it after renaming it
-            tmp_dir.close()?;
+            // save the current corpus under the actual location and remove the backup
+            self.internal_save_with_backup(location)?;
         }
 
         Ok(())
@@ -771,6 +762,9 @@ impl<CT: ComponentType> Graph<CT> {
         let current_location = location.join("current");
         if !backup_location.exists() {
             std::fs::rename(&current_location, &backup_location)?;
+        } else if current_location.exists() {
+            // Saving this version was aborted, do not mix its files with the new ones
+            std::fs::remove_dir_all(&current_location)?;
         }
 
         // Save the complete corpus without the write log to the target location
-- 
2.43.0


From 4e18e1f3769c91ee4d2bd389f825760417db68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 20/51] fix: logging an update dropped earlier logged updates
 which were not yet saved

---
 core/src/graph/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index fbc063b..a09d060 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -701,19 +701,41 @@ impl<CT: ComponentType> Graph<CT> {
         if let Some(location) = self.location.clone() {
             trace!("output location for persisting updates is {:?}", location);
             if apply_update_result.is_ok() {
-                let current_path = location.join("current");
+                // If there is a backup folder (saving the current version
+                // failed), the corpus will be loaded from this folder. Thus, the
+                // log must be located there.
+                let backup_path = location.join("backup");
+                let current_path = if backup_path.is_dir() {
+                    backup_path
+                } else {
+                    location.join("current")
+                };
                 // make sure the output path exits
                 std::fs::create_dir_all(&current_path)?;
 
                 // If successfull write log
                 let log_path = current_path.join("update_log.bin");
 
+                // Do not loose the updates which have been logged before but are
+                // not yet part of the saved corpus.
+                let mut pending_updates: Option<GraphUpdate> = None;
+                if log_path.is_file() {
+                    let log_reader = std::fs::File::open(&log_path)?;
+                    let mut pending: GraphUpdate = bincode::deserialize_from(log_reader)?;
+                    for event in u.iter()? {
+                        let (_, event) = event?;
+                        pending.add_event(event)?;
+                    }
+                    pending_updates = Some(pending);
+                }
+                let logged_updates = pending_updates.as_ref().unwrap_or(u);
+
                 // Create a temporary directory in the same file system as the output
                 let temporary_dir = tempfile::tempdir_in(&current_path)?;
                 let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
 
                 debug!("writing WAL update log to {:?}", temporary_disk_file.path());
-                bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
+                bincode::serialize_into(temporary_disk_file.as_file(), logged_updates)?;
                 temporary_disk_file.flush()?;
                 debug!("moving finished WAL update log to {:?}", &log_path);
                 // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
-- 
2.43.0


From 61c91601d83e024d452190bc4212e00af236d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 21/51] fix: components not loaded yet were dropped when saving
 a graph

---
 core/src/graph/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index a09d060..65824da 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -328,6 +328,8 @@ impl<CT: ComponentType> Graph<CT> {
 
     /// Save the current database at a new `location` and remember it as new internal location.
     pub fn persist_to(&mut self, location: &Path) -> Result<()> {
+        // make sure all components are loaded from the old location
+        self.ensure_loaded_all()?;
         self.location = Some(location.to_path_buf());
         self.internal_save(&location.join("current"))
     }
@@ -348,17 +350,24 @@ impl<CT: ComponentType> Graph<CT> {
         self.node_annos.save_annotations_to(&location)?;
 
         for (c, e) in &self.components {
-            if let Some(ref data) = *e {
-                let dir = PathBuf::from(&location).join(component_to_relative_path(c));
-                std::fs::create_dir_all(&dir)?;
+            let data = match e {
+                Some(data) => data.clone(),
+                None => {
+                    // The component has not been loaded yet, but still belongs to the graph
+                    let component_path = component_path(&self.location, c)
+                        .ok_or(GraphAnnisCoreError::EmptyComponentPath)?;
+                    load_component_from_disk(&component_path)?
+                }
+            };
+            let dir = PathBuf::from(&location).join(component_to_relative_path(c));
+            std::fs::create_dir_all(&dir)?;
 
-                let impl_name = data.serialization_id();
-                data.save_to(&dir)?;
+            let impl_name = data.serialization_id();
+            data.save_to(&dir)?;
 
-                let cfg_path = PathBuf::from(&dir).join("impl.cfg");
-                let mut f_cfg = std::fs::File::create(cfg_path)?;
-                f_cfg.write_all(impl_name.as_bytes())?;
-            }
+            let cfg_path = PathBuf::from(&dir).join("impl.cfg");
+            let mut f_cfg = std::fs::File::create(cfg_path)?;
+            f_cfg.write_all(impl_name.as_bytes())?;
         }
 
         // Save global statistics
-- 
2.43.0


From c5ef53a0d2f9bfd84496a721d46dbe51b2ffa818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 22/51] fix: saving a graph into a folder with an existing
 graph mixed both or destroyed the files in use

---
 core/src/graph/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 65824da..07701c7 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -323,7 +323,7 @@ impl<CT: ComponentType> Graph<CT> {
     pub fn save_to(&mut self, location: &Path) -> Result<()> {
         // make sure all components are loaded, otherwise saving them does not make any sense
         self.ensure_loaded_all()?;
-        self.internal_save(&location.join("current"))
+        self.internal_save_replacing(location)
     }
 
     /// Save the current database at a new `location` and remember it as new internal location.
@@ -331,7 +331,20 @@ impl<CT: ComponentType> Graph<CT> {
         // make sure all components are loaded from the old location
         self.ensure_loaded_all()?;
         self.location = Some(location.to_path_buf());
-        self.internal_save(&location.join("current"))
+        self.internal_save_replacing(location)
+    }
+
+    /// Save this graph to the given location and replace any graph that has been saved there before.
+    fn internal_save_replacing(&self, location: &Path) -> Result<()> {
+        let current_location = location.join("current");
+        if current_location.exists() || location.join("backup").exists() {
+            // Never write into a folder with an existing graph. Its files could
+            // still be used by this graph and left-over files (like the update
+            // log) would become part of the saved graph.
+            self.internal_save_with_backup(location)
+        } else {
+            self.internal_save(&current_location)
+        }
     }
 
     /// Clear the graph content.
-- 
2.43.0


From 19738092ae654f8c2a448cd5cc57866e03afe42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 23/51] fix: components with special characters in their layer
 or name were not found again after saving

---
 core/src/graph/mod.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 07701c7..324af5b 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -12,6 +12,7 @@ use crate::{
     types::{AnnoKey, Annotation, Component, ComponentType, Edge, NodeID},
 };
 use clru::CLruCache;
+use percent_encoding::{AsciiSet, CONTROLS, percent_decode_str, utf8_percent_encode};
 use rayon::prelude::*;
 use std::ops::Bound::Included;
 use std::path::{Path, PathBuf};
@@ -78,16 +79,36 @@ fn load_component_from_disk(component_path: &Path) -> Result<Arc<dyn GraphStorag
     Ok(gs)
 }
 
+/// Characters which can't be used in the name of a folder for a component
+const FOLDER_NAME_ENCODE_SET: &AsciiSet = &CONTROLS.add(b'/').add(b'\\').add(b'%');
+
+/// Encode the layer or name of a component, so that it can be used as the name of a single folder.
+fn encode_folder_name(name: &str) -> Cow<'_, str> {
+    match name {
+        // These names have a special meaning as folder name
+        "." => "%2E".into(),
+        ".." => "%2E%2E".into(),
+        _ => utf8_percent_encode(name, FOLDER_NAME_ENCODE_SET).into(),
+    }
+}
+
+fn decode_folder_name(folder_name: &str) -> String {
+    percent_decode_str(folder_name)
+        .decode_utf8_lossy()
+        .to_string()
+}
+
 fn component_to_relative_path<CT: ComponentType>(c: &Component<CT>) -> PathBuf {
     let mut p = PathBuf::new();
     p.push("gs");
     p.push(c.get_type().to_string());
-    p.push(if c.layer.is_empty() {
-        DEFAULT_EMPTY_LAYER
-    } else {
-        &c.layer
-    });
-    p.push(c.name.as_str());
+    match c.layer.as_str() {
+        "" => p.push(DEFAULT_EMPTY_LAYER),
+        // Do not confuse this layer with the empty one
+        DEFAULT_EMPTY_LAYER => p.push("%64efault_layer"),
+        layer => p.push(encode_folder_name(layer).as_ref()),
+    }
+    p.push(encode_folder_name(&c.name).as_ref());
     p
 }
 
@@ -134,7 +155,7 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                     let layer_name = if layer_name_from_file == DEFAULT_EMPTY_LAYER {
                         String::default()
                     } else {
-                        layer_name_from_file.into()
+                        decode_folder_name(&layer_name_from_file)
                     };
                     let empty_name_component =
                         Component::new(c.clone(), layer_name.clone(), String::default());
@@ -154,7 +175,7 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                         let named_component = Component::new(
                             c.clone(),
                             layer_name.clone(),
-                            name.file_name().to_string_lossy().into(),
+                            decode_folder_name(&name.file_name().to_string_lossy()),
                         );
                         let cfg_file = PathBuf::from(location.as_ref())
                             .join(component_to_relative_path(&named_component))
-- 
2.43.0


From 7f0a5e608ec006cd5985252a8a5ed61a405ff16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 24/51] fix: switching between in-memory and on-disk mode
 dropped the labels of nodes without a type

---
 core/src/graph/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 324af5b..548ca73 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -1066,13 +1066,19 @@ impl<CT: ComponentType> Graph<CT> {
 
             // Copy all annotations for all nodes
             info!("copying node annotations");
-            for m in self
-                .node_annos
-                .exact_anno_search(Some(ANNIS_NS), NODE_TYPE, ValueSearch::Any)
-            {
-                let m = m?;
-                for anno in self.node_annos.get_annotations_for_item(&m.node)? {
-                    new_node_annos.insert(m.node, anno)?;
+            for key in self.node_annos.annotation_keys()? {
+                for m in
+                    self.node_annos
+                        .exact_anno_search(Some(&key.ns), &key.name, ValueSearch::Any)
+                {
+                    let m = m?;
+                    if let Some(val) = self.node_annos.get_value_for_item(&m.node, &key)? {
+                        let anno = Annotation {
+                            key: key.clone(),
+                            val: val.into(),
+                        };
+                        new_node_annos.insert(m.node, anno)?;
+                    }
                 }
             }
             self.node_annos = new_node_annos;
-- 
2.43.0


From 83c380d896ef80c684a1ffcf10653eb27f8fc0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 25/51] fix: saving a graph after its folder has been moved to
 the backup location lost the components stored as disk paths

---
 core/src/graph/storage/disk_path.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index d1ea604..5a24688 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -392,16 +392,18 @@ impl GraphStorage for DiskPathStorage {
         std::fs::create_dir_all(location)?;
         // Normalize all paths to check if they are the same
         let new_location = location.normalize()?;
-        if let Some(old_location) = &self.location {
-            let old_location = old_location.normalize()?;
-            if new_location == old_location {
-                // This is an immutable graph storage so there can't be any
-                // changes to write to the existing location we already use.
-                return Ok(());
-            }
+        let new_paths_file = new_location.join("paths.bin");
+        // The folder we have been loaded from could have been moved or deleted
+        if let Some(old_location) = &self.location
+            && new_paths_file.exists()
+            && let Ok(old_location) = old_location.normalize()
+            && new_location == old_location
+        {
+            // This is an immutable graph storage so there can't be any
+            // changes to write to the existing location we already use.
+            return Ok(());
         }
         // Copy the current paths file to the new location
-        let new_paths_file = new_location.join("paths.bin");
         let mut new_paths = File::create(new_paths_file)?;
         let mut old_reader = BufReader::new(&self.paths[..]);
         std::io::copy(&mut old_reader, &mut new_paths)?;
-- 
2.43.0


From a366a88c72c53105b51b14015c0c25b5ebc065b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 26/51] fix: displaying an error of an on-disk table overflowed
 the stack

---
 core/src/errors.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/errors.rs b/core/src/errors.rs
index faa2ea4..a92c5da 100644
--- a/core/src/errors.rs
+++ b/core/src/errors.rs
@@ -41,8 +41,8 @@ pub enum GraphAnnisCoreError {
     Io(#[from] std::io::Error),
     #[error(transparent)]
     PersistingTemporaryFile(#[from] tempfile::PersistError),
-    #[error(transparent)]
-    SortedStringTable(#[from] sstable::error::Status),
+    #[error("{0}")]
+    SortedStringTable(String),
     #[error(transparent)]
     Xml(#[from] quick_xml::Error),
     #[error(transparent)]
@@ -83,6 +83,14 @@ impl<T> From<PoisonError<T>> for GraphAnnisCoreError {
     }
 }
 
+impl From<sstable::error::Status> for GraphAnnisCoreError {
+    fn from(e: sstable::error::Status) -> Self {
+        // The `Display` implementation of the sstable error type calls itself,
+        // displaying it would overflow the stack.
+        Self::SortedStringTable(e.err)
+    }
+}
+
 #[derive(Error, Debug)]
 #[error(transparent)]
 pub struct ComponentTypeError(pub Box<dyn std::error::Error + Send + Sync>);
-- 
2.43.0


From 0453c3e9a883b421a150aa5c69ffc7764fa08bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:07 +0000
Subject: [PATCH 27/51] fix: errors when writing the last part of a file were
 ignored, so saving a corpus succeeded with incomplete files

---
 core/src/annostorage/inmemory.rs | 3 +++
 core/src/annostorage/ondisk.rs   | 3 +++
 core/src/graph/storage/mod.rs    | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index de092af..5e6865d 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -12,6 +12,7 @@ use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::hash::Hash;
+use std::io::Write;
 use std::path::Path;
 use std::sync::Arc;
 
@@ -1004,6 +1005,8 @@ where
         let f = std::fs::File::create(location.join("nodes_v1.bin"))?;
         let mut writer = std::io::BufWriter::new(f);
         bincode::serialize_into(&mut writer, self)?;
+        // Errors are ignored when the writer is dropped
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index d8e4210..446c5af 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -15,6 +15,7 @@ use regex_syntax::hir::literal::Seq;
 use serde_bytes::ByteBuf;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use transient_btree_index::BtreeConfig;
@@ -1192,6 +1193,8 @@ where
         bincode::serialize_into(&mut writer, &self.anno_key_sizes)?;
         bincode::serialize_into(&mut writer, &self.histogram_bounds)?;
         bincode::serialize_into(&mut writer, &self.anno_key_symbols)?;
+        // Errors are ignored when the writer is dropped
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 6d3e4f2..aa728ac 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -17,7 +17,7 @@ use crate::{
 };
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
-use std::{self, path::Path};
+use std::{self, io::Write, path::Path};
 
 /// Some general statistical numbers specific to a graph component
 #[derive(Serialize, Deserialize, Clone)]
@@ -209,6 +209,8 @@ where
     let f_data = std::fs::File::create(data_path)?;
     let mut writer = std::io::BufWriter::new(f_data);
     bincode::serialize_into(&mut writer, field)?;
+    // Errors are ignored when the writer is dropped
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 792053a560f4f9af74efcb17496de009a4dde91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 28/51] fix: derived token indexes became stale for token
 label, named dominance, ordering and renaming updates

---
 graphannis/src/annis/db/aql/model.rs | 205 +++++++++++++++++++--------
 1 file changed, 148 insertions(+), 57 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 7970e64..3b5e77f 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -7,7 +7,7 @@ use graphannis_core::{
     annostorage::ValueSearch,
     dfs::CycleSafeDFS,
     errors::ComponentTypeError,
-    graph::{ANNIS_NS, NODE_TYPE_KEY, storage::union::UnionEdgeContainer},
+    graph::{ANNIS_NS, NODE_NAME_KEY, NODE_TYPE_KEY, storage::union::UnionEdgeContainer},
     types::ComponentType,
     util::disk_collections::{DEFAULT_BLOCK_CACHE_CAPACITY, DiskMap, EvictionStrategy},
 };
@@ -119,6 +119,14 @@ pub struct AQLGlobalStatistics {
     pub corpus_size: CorpusSize,
 }
 
+fn default_ordering_component() -> AnnotationComponent {
+    AnnotationComponent::new(
+        AnnotationComponentType::Ordering,
+        ANNIS_NS.into(),
+        "".into(),
+    )
+}
+
 fn calculate_inherited_coverage_edges(
     graph: &mut AnnotationGraph,
     n: NodeID,
@@ -174,6 +182,8 @@ pub struct AQLUpdateGraphIndex {
     /// True if the graph did not have any nodes before the update.
     graph_without_nodes: bool,
     invalid_nodes: DiskMap<NodeID, bool>,
+    /// Nodes whose position in the text order has been changed
+    changed_order_nodes: FxHashSet<NodeID>,
     text_coverage_components: FxHashSet<AnnotationComponent>,
 }
 
@@ -220,6 +230,63 @@ impl AQLUpdateGraphIndex {
         Ok(())
     }
 
+    fn add_changed_order_node(
+        &mut self,
+        node_name: String,
+        graph: &AnnotationGraph,
+    ) -> std::result::Result<(), ComponentTypeError> {
+        if let Some(node) = self.get_cached_node_id_from_name(Cow::Owned(node_name), graph)? {
+            self.changed_order_nodes.insert(node);
+        }
+        Ok(())
+    }
+
+    /// Remember that the order of the given node and its direct neighbors in
+    /// the text changes when the node is deleted.
+    fn add_changed_order_neighbors(
+        &mut self,
+        graph: &AnnotationGraph,
+        node: NodeID,
+    ) -> std::result::Result<(), ComponentTypeError> {
+        if let Some(gs_order) = graph.get_graphstorage_as_ref(&default_ordering_component()) {
+            for n in gs_order
+                .get_outgoing_edges(node)
+                .chain(gs_order.get_ingoing_edges(node))
+            {
+                self.changed_order_nodes.insert(n?);
+            }
+        }
+        Ok(())
+    }
+
+    /// A changed ordering edge can change the relative position of all nodes
+    /// in the same text, so mark all nodes that cover any of them as invalid.
+    fn calculate_invalidated_nodes_by_order(
+        &mut self,
+        graph: &AnnotationGraph,
+    ) -> std::result::Result<(), ComponentTypeError> {
+        let mut remaining: Vec<NodeID> = self.changed_order_nodes.drain().collect();
+        let mut visited: FxHashSet<NodeID> = remaining.iter().copied().collect();
+        let gs_order = graph.get_graphstorage_as_ref(&default_ordering_component());
+        while let Some(node) = remaining.pop() {
+            if !self.invalid_nodes.contains_key(&node)? {
+                self.calculate_invalidated_nodes_by_coverage(graph, node)?;
+            }
+            if let Some(gs_order) = gs_order {
+                for n in gs_order
+                    .get_outgoing_edges(node)
+                    .chain(gs_order.get_ingoing_edges(node))
+                {
+                    let n = n?;
+                    if visited.insert(n) {
+                        remaining.push(n);
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn clear_left_right_token(
         &self,
         graph: &mut AnnotationGraph,
@@ -451,7 +518,7 @@ impl ComponentType for AnnotationComponentType {
 
         let mut text_coverage_components = FxHashSet::default();
         text_coverage_components
-            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), Some("")));
+            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), None));
         text_coverage_components
             .extend(graph.get_all_components(Some(AnnotationComponentType::Coverage), None));
         Ok(AQLUpdateGraphIndex {
@@ -459,6 +526,7 @@ impl ComponentType for AnnotationComponentType {
             graph_without_nodes,
             text_coverage_components,
             invalid_nodes,
+            changed_order_nodes: FxHashSet::default(),
         })
     }
 
@@ -471,9 +539,36 @@ impl ComponentType for AnnotationComponentType {
             UpdateEvent::DeleteNode { node_name } if !index.graph_without_nodes => {
                 if let Some(existing_node_id) =
                     index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
-                    && !index.invalid_nodes.contains_key(&existing_node_id)?
                 {
-                    index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
+                    if !index.invalid_nodes.contains_key(&existing_node_id)? {
+                        index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
+                    }
+                    index.add_changed_order_neighbors(graph, existing_node_id)?;
+                }
+            }
+            UpdateEvent::AddNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+                ..
+            }
+            | UpdateEvent::DeleteNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+            } if !index.graph_without_nodes
+                && anno_ns == &TOKEN_KEY.ns
+                && anno_name == &TOKEN_KEY.name =>
+            {
+                // Whether the node is a token or not might change
+                if let Some(node) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                    && graph
+                        .get_node_annos()
+                        .has_value_for_item(&node, &TOKEN_KEY)?
+                        != matches!(update, UpdateEvent::AddNodeLabel { .. })
+                {
+                    index.calculate_invalidated_nodes_by_coverage(graph, node)?;
                 }
             }
             UpdateEvent::DeleteEdge {
@@ -487,7 +582,6 @@ impl ComponentType for AnnotationComponentType {
                 {
                     if ctype == AnnotationComponentType::Coverage
                         || ctype == AnnotationComponentType::Dominance
-                        || ctype == AnnotationComponentType::Ordering
                         || ctype == AnnotationComponentType::LeftToken
                         || ctype == AnnotationComponentType::RightToken
                     {
@@ -496,14 +590,9 @@ impl ComponentType for AnnotationComponentType {
                         {
                             index.calculate_invalidated_nodes_by_coverage(graph, source)?;
                         }
-                    }
-
-                    if ctype == AnnotationComponentType::Ordering {
-                        if let Some(target) =
-                            index.get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
-                        {
-                            index.calculate_invalidated_nodes_by_coverage(graph, target)?;
-                        }
+                    } else if ctype == AnnotationComponentType::Ordering {
+                        index.add_changed_order_node(source_node.clone(), graph)?;
+                        index.add_changed_order_node(target_node.clone(), graph)?;
                     }
                 }
             }
@@ -518,47 +607,56 @@ impl ComponentType for AnnotationComponentType {
         graph: &AnnotationGraph,
         index: &mut Self::UpdateGraphIndex,
     ) -> std::result::Result<(), ComponentTypeError> {
-        if let UpdateEvent::AddEdge {
-            component_type,
-            component_name,
-            layer,
-            source_node,
-            target_node,
-            ..
-        } = update
-            && let Ok(ctype) = AnnotationComponentType::from_str(&component_type)
-        {
-            if (ctype == AnnotationComponentType::Dominance
-                || ctype == AnnotationComponentType::Coverage)
-                && component_name.is_empty()
-            {
-                // might be a new text coverage component
-                let c = AnnotationComponent::new(ctype.clone(), layer, component_name);
-                index.text_coverage_components.insert(c);
+        match update {
+            UpdateEvent::DeleteNode { node_name } => {
+                // A new node with the same name gets a new ID
+                index.cached_node_ids.remove(&node_name)?;
             }
-
-            if !index.graph_without_nodes {
-                if ctype == AnnotationComponentType::Coverage
-                    || ctype == AnnotationComponentType::Dominance
-                    || ctype == AnnotationComponentType::Ordering
-                    || ctype == AnnotationComponentType::LeftToken
-                    || ctype == AnnotationComponentType::RightToken
-                {
-                    if let Some(source) =
-                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?
+            UpdateEvent::AddNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+                anno_value,
+            } if anno_ns == NODE_NAME_KEY.ns && anno_name == NODE_NAME_KEY.name => {
+                // The node has been renamed
+                index.cached_node_ids.remove(&node_name)?;
+                index.cached_node_ids.remove(&anno_value)?;
+            }
+            UpdateEvent::AddEdge {
+                component_type,
+                component_name,
+                layer,
+                source_node,
+                target_node,
+            } => {
+                if let Ok(ctype) = AnnotationComponentType::from_str(&component_type) {
+                    if ctype == AnnotationComponentType::Dominance
+                        || ctype == AnnotationComponentType::Coverage
                     {
-                        index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        // might be a new text coverage component
+                        let c = AnnotationComponent::new(ctype.clone(), layer, component_name);
+                        index.text_coverage_components.insert(c);
                     }
-                }
 
-                if ctype == AnnotationComponentType::Ordering {
-                    if let Some(target) =
-                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?
-                    {
-                        index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    if !index.graph_without_nodes {
+                        if ctype == AnnotationComponentType::Coverage
+                            || ctype == AnnotationComponentType::Dominance
+                            || ctype == AnnotationComponentType::LeftToken
+                            || ctype == AnnotationComponentType::RightToken
+                        {
+                            if let Some(source) = index
+                                .get_cached_node_id_from_name(Cow::Owned(source_node), graph)?
+                            {
+                                index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                            }
+                        } else if ctype == AnnotationComponentType::Ordering {
+                            index.add_changed_order_node(source_node, graph)?;
+                            index.add_changed_order_node(target_node, graph)?;
+                        }
                     }
                 }
             }
+            _ => {}
         }
         Ok(())
     }
@@ -582,15 +680,12 @@ impl ComponentType for AnnotationComponentType {
                 index.invalid_nodes.insert(m.node, true)?;
             }
         }
+        index.calculate_invalidated_nodes_by_order(graph)?;
         index.invalid_nodes.compact()?;
 
         // Re-index the inherited coverage component.
         // To make this operation fast, we need to optimize the order component first
-        let order_component = AnnotationComponent::new(
-            AnnotationComponentType::Ordering,
-            ANNIS_NS.into(),
-            "".into(),
-        );
+        let order_component = default_ordering_component();
         let order_stats_exist = graph
             .get_graphstorage(&order_component)
             .map(|gs_order| gs_order.get_statistics().is_some())
@@ -631,11 +726,7 @@ impl ComponentType for AnnotationComponentType {
     ) -> std::result::Result<(), ComponentTypeError> {
         // Determine if all nodes having an "annis::tok" label are actually part
         // of an ordering component or if there are texts with only one token.
-        let default_ordering_component = Component::new(
-            AnnotationComponentType::Ordering,
-            ANNIS_NS.into(),
-            "".into(),
-        );
+        let default_ordering_component = default_ordering_component();
 
         let token_helper = TokenHelper::new(graph)?;
         let mut all_token_in_order_component = false;
-- 
2.43.0


From 08992de1c527cee4ff7185423e564045a68d9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 29/51] fix: statistics claimed that all token are ordered when
 only the last one was

---
 graphannis/src/annis/db/aql/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 3b5e77f..ff21e3c 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -745,8 +745,8 @@ impl ComponentType for AnnotationComponentType {
 
                 if !token_helper.has_outgoing_coverage_edges(n)? {
                     all_token_in_order_component = all_token_in_order_component
-                        && ordering_gs.has_outgoing_edges(n)?
-                        || ordering_gs.has_ingoing_edges(n)?;
+                        && (ordering_gs.has_outgoing_edges(n)?
+                            || ordering_gs.has_ingoing_edges(n)?);
                     // Update the token counter
                     base_token_count += 1;
                 }
-- 
2.43.0


From 06a619e30d5d1ddf76a79e8811bf2bf462ee93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:43 +0000
Subject: [PATCH 30/51] fix: searching a query node by its component missed
 token and returned wrong annotation keys or duplicates

---
 graphannis/src/annis/db/aql/conjunction.rs     |  4 +++-
 .../src/annis/db/aql/operators/edge_op.rs      | 12 ++++++++++++
 .../src/annis/db/aql/operators/precedence.rs   |  4 ++++
 graphannis/src/annis/db/exec/nodesearch.rs     | 18 +++++++++++++++++-
 graphannis/src/annis/operator.rs               |  7 +++++++
 5 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index dd3d0ac..5a3e22b 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -561,7 +561,9 @@ impl Conjunction {
             if let Some(node_search_cost) = desc.cost.as_ref() {
                 for e in op_spec_entries {
                     let op_spec = &e.op;
-                    if e.args.left - self.var_idx_offset == desc.component_nr {
+                    if op_spec.lhs_is_source_of_component()
+                        && e.args.left - self.var_idx_offset == desc.component_nr
+                    {
                         // get the necessary components and count the number of nodes in these components
                         let components = op_spec.necessary_components(db);
                         if !components.is_empty() {
diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index c57eddd..729963f 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -654,6 +654,10 @@ impl BinaryOperatorSpec for DominanceSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_of_component(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -706,6 +710,10 @@ impl BinaryOperatorSpec for PointingSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_of_component(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -766,6 +774,10 @@ impl BinaryOperatorSpec for PartOfSubCorpusSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_of_component(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 4e35b85..a9b6c3b 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -78,6 +78,10 @@ impl BinaryOperatorSpec for PrecedenceSpec {
         Ok(BinaryOperator::Index(Box::new(op)))
     }
 
+    fn lhs_is_source_of_component(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 1cc9e99..11abc62 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -996,6 +996,7 @@ impl<'a> NodeSearch<'a> {
     ) -> Result<NodeSearch<'a>> {
         let node_search_desc_1 = node_search_desc.clone();
         let node_search_desc_2 = node_search_desc.clone();
+        let const_output = node_search_desc.const_output.clone();
 
         let it = components
             .into_iter()
@@ -1030,6 +1031,8 @@ impl<'a> NodeSearch<'a> {
                     }
                 },
             )
+            // A node can be part of several components or have several outgoing edges
+            .unique_by(|node| node.as_ref().ok().copied())
             .map(move |node| {
                 match node {
                     Ok(node) => {
@@ -1057,11 +1060,24 @@ impl<'a> NodeSearch<'a> {
                             return Ok(None);
                         }
                     }
-                    Ok(Some(smallvec![m]))
+                    Ok(Some(m))
                 }
                 Err(e) => Err(GraphAnnisError::from(e)),
             })
             .filter_map_ok(|m| m);
+        let it: Box<dyn Iterator<Item = Result<Match>>> = if let Some(const_output) = const_output {
+            // Replace the annotation with the constant value and only include each node once
+            Box::new(
+                it.map_ok(move |m| Match {
+                    node: m.node,
+                    anno_key: const_output.clone(),
+                })
+                .unique_by(|m| m.as_ref().ok().map(|m| m.node)),
+            )
+        } else {
+            Box::new(it)
+        };
+        let it = it.map_ok(|m| smallvec![m]);
         let mut new_desc = desc.cloned();
         if let Some(ref mut new_desc) = new_desc {
             new_desc.impl_description = String::from("part-of-component-search");
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index a4a8614..86f3bc2 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -238,6 +238,13 @@ pub trait BinaryOperatorSpec: std::fmt::Debug + Send + Sync {
         true
     }
 
+    /// If true, every node on the left-hand-side of a match for this operator is the source of at
+    /// least one edge in one of the necessary components (and if there is an edge annotation
+    /// constraint, the source of an edge with such an annotation).
+    fn lhs_is_source_of_component(&self) -> bool {
+        false
+    }
+
     #[cfg(test)]
     fn into_any(self: std::sync::Arc<Self>) -> std::sync::Arc<dyn std::any::Any>;
 
-- 
2.43.0


From 0a3a4b987e8d1f145a598be6fa4d4fe301c090b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 31/51] fix: overlap operator reported nodes without a shared
 token when used as filter

---
 .../src/annis/db/aql/operators/overlap.rs     | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index 5bdf5ec..9871f00 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -87,6 +87,29 @@ impl<'a> Overlap<'a> {
     }
 }
 
+impl Overlap<'_> {
+    /// Collect the token covered by the node. A token covers itself.
+    fn covered_token(&self, node: NodeID) -> Result<FxHashSet<NodeID>> {
+        let mut result = FxHashSet::default();
+        if self.tok_helper.is_token(node)? {
+            result.insert(node);
+        } else {
+            for gs_cov in self.tok_helper.get_gs_coverage().iter() {
+                for t in gs_cov.get_outgoing_edges(node) {
+                    result.insert(t?);
+                }
+            }
+        }
+        Ok(result)
+    }
+
+    fn has_shared_token(&self, n1: NodeID, n2: NodeID) -> Result<bool> {
+        let token1 = self.covered_token(n1)?;
+        let token2 = self.covered_token(n2)?;
+        Ok(!token1.is_disjoint(&token2))
+    }
+}
+
 impl std::fmt::Display for Overlap<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         if self.reflexive {
@@ -115,7 +138,8 @@ impl BinaryOperatorBase for Overlap<'_> {
                 // path between LHS left-most token and RHS right-most token exists in ORDERING component
                 && self.gs_order.distance(start_rhs, end_lhs)?.is_some()
             {
-                return Ok(true);
+                // The nodes can be discontinuous: check that they actually share a token
+                return self.has_shared_token(lhs.node, rhs.node);
             }
         }
         Ok(false)
-- 
2.43.0


From e57f6423e958ad1e4c1dd38fd6caafe5813a35ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 32/51] fix: value comparison used as inverse join or with
 labels in several namespaces lost matches

---
 .../src/annis/db/aql/operators/equal_value.rs | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index 77e5920..f353010 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -34,12 +34,13 @@ impl BinaryOperatorSpec for EqualValueSpec {
         db: &'a AnnotationGraph,
         _cost_estimate: Option<(&CostEstimate, &CostEstimate)>,
     ) -> Result<BinaryOperator<'a>> {
-        Ok(BinaryOperator::Index(Box::new(EqualValue {
+        EqualValue {
             node_annos: db.get_node_annos(),
             spec_left: self.spec_left.clone(),
             spec_right: self.spec_right.clone(),
             negated: self.negated,
-        })))
+        }
+        .into_binary_operator()
     }
 
     fn is_binding(&self) -> bool {
@@ -75,6 +76,23 @@ impl std::fmt::Display for EqualValue<'_> {
     }
 }
 
+impl<'a> EqualValue<'a> {
+    /// Only provide the index based variant if a retrieved node can't have several annotations
+    /// that are described by the right operand. An index join gets the annotations from the
+    /// retrieved node and would not know which one of them has the matching value.
+    fn into_binary_operator(self) -> Result<BinaryOperator<'a>> {
+        let unique_annotation = match EqualValue::anno_def_for_spec(&self.spec_right) {
+            Some((None, name)) => self.node_annos.get_qnames(name)?.len() <= 1,
+            _ => true,
+        };
+        if unique_annotation {
+            Ok(BinaryOperator::Index(Box::new(self)))
+        } else {
+            Ok(BinaryOperator::Base(Box::new(self)))
+        }
+    }
+}
+
 impl EqualValue<'_> {
     fn value_for_match(&self, m: &Match, spec: &NodeSearchSpec) -> Result<Option<Cow<'_, str>>> {
         match spec {
@@ -165,13 +183,13 @@ impl BinaryOperatorBase for EqualValue<'_> {
         &self,
         graph: &'b AnnotationGraph,
     ) -> Result<Option<BinaryOperator<'b>>> {
-        let inverse = BinaryOperator::Index(Box::from(EqualValue {
+        let inverse = EqualValue {
             node_annos: graph.get_node_annos(),
-            spec_left: self.spec_left.clone(),
-            spec_right: self.spec_right.clone(),
+            spec_left: self.spec_right.clone(),
+            spec_right: self.spec_left.clone(),
             negated: self.negated,
-        }));
-        Ok(Some(inverse))
+        };
+        Ok(Some(inverse.into_binary_operator()?))
     }
 }
 
-- 
2.43.0


From e874825410012e573bddd0f453f4039fb35d1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 33/51] fix: near and precedence operators with segmentation
 returned nodes only aligned with the ordered ones

---
 graphannis/src/annis/db/aql/operators/near.rs   | 17 ++++++++++++++---
 .../src/annis/db/aql/operators/precedence.rs    | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 1a80652..357d878 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -172,7 +172,8 @@ impl BinaryOperatorBase for Near<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = 2 * (max_possible_dist - self.spec.dist.min_dist() + 1);
+            let num_of_descendants =
+                2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
@@ -217,7 +218,12 @@ impl BinaryOperatorIndex for Near<'_> {
                 .fuse();
             let it = connected
                 .map_ok(|t| {
-                    let it_aligned = self.tok_helper.get_gs_left_token().get_ingoing_edges(t);
+                    // Nodes are only aligned with token, but not with the nodes of a segmentation
+                    let it_aligned = if self.spec.segmentation.is_none() {
+                        self.tok_helper.get_gs_left_token().get_ingoing_edges(t)
+                    } else {
+                        Box::new(std::iter::empty())
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
@@ -245,7 +251,12 @@ impl BinaryOperatorIndex for Near<'_> {
             let it = connected
                 // find all right aligned nodes for this token and add it together with the token itself
                 .map_ok(move |t| {
-                    let it_aligned = self.tok_helper.get_gs_right_token().get_ingoing_edges(t);
+                    // Nodes are only aligned with token, but not with the nodes of a segmentation
+                    let it_aligned = if self.spec.segmentation.is_none() {
+                        self.tok_helper.get_gs_right_token().get_ingoing_edges(t)
+                    } else {
+                        Box::new(std::iter::empty())
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index a9b6c3b..49e0e8f 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -237,7 +237,12 @@ impl BinaryOperatorIndex for Precedence<'_> {
         let result = connected
             // find all left aligned nodes for this token and add it together with the token itself
             .map_ok(move |t| {
-                let it_aligned = self.gs_left.get_ingoing_edges(t);
+                // Nodes are only aligned with token, but not with the nodes of a segmentation
+                let it_aligned = if self.spec.segmentation.is_none() {
+                    self.gs_left.get_ingoing_edges(t)
+                } else {
+                    Box::new(std::iter::empty())
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
@@ -321,7 +326,8 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = max_possible_dist - self.spec.dist.min_dist() + 1;
+            let num_of_descendants =
+                max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1;
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
@@ -355,7 +361,12 @@ impl BinaryOperatorIndex for InversePrecedence<'_> {
         let result = token_in_range
             .map_ok(move |t| {
                 // find all right aligned nodes for this token and add it together with the token itself
-                let it_aligned = self.gs_right.get_ingoing_edges(t);
+                // Nodes are only aligned with token, but not with the nodes of a segmentation
+                let it_aligned = if self.spec.segmentation.is_none() {
+                    self.gs_right.get_ingoing_edges(t)
+                } else {
+                    Box::new(std::iter::empty())
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
-- 
2.43.0


From 408969824cf9d0457683c20128895f175799db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 34/51] fix: negated operators and the reflexivity of operators
 depended on the order in which operators are executed

---
 graphannis/src/annis/db/aql/conjunction.rs    | 65 +++++++++++++++----
 .../src/annis/db/aql/operators/negated_op.rs  | 31 ++++++---
 .../annis/db/aql/operators/non_existing.rs    | 43 +++++++++---
 graphannis/src/annis/db/exec/filter.rs        | 29 ++++++++-
 4 files changed, 140 insertions(+), 28 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 5a3e22b..64d9cc0 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -58,6 +58,14 @@ pub struct BinaryOperatorEntry<'a> {
     pub args: BinaryOperatorArguments,
 }
 
+/// The operands of an operator for which both matches must be different.
+pub struct NonReflexiveOperands {
+    pub left: usize,
+    pub right: usize,
+    /// If true, the operands also have to be different to all other matches of the tuple.
+    pub global_reflexivity: bool,
+}
+
 pub struct UnaryOperatorEntry<'a> {
     pub op: Box<dyn UnaryOperator + 'a>,
     pub node_nr: usize,
@@ -729,7 +737,7 @@ impl Conjunction {
             Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         >,
         helper: &mut ExecutionPlanHelper,
-    ) -> Result<()> {
+    ) -> Result<Option<NonReflexiveOperands>> {
         let mut op: BinaryOperator<'a> = op_spec_entry
             .op
             .create_operator(g, self.get_cost_estimates(op_spec_entry, &helper.node2cost))?;
@@ -751,6 +759,16 @@ impl Conjunction {
         spec_idx_left -= self.var_idx_offset;
         spec_idx_right -= self.var_idx_offset;
 
+        let non_reflexive_operands = if op.is_reflexive() {
+            None
+        } else {
+            Some(NonReflexiveOperands {
+                left: spec_idx_left,
+                right: spec_idx_right,
+                global_reflexivity: op_spec_entry.args.global_reflexivity,
+            })
+        };
+
         let op_entry = BinaryOperatorEntry {
             op,
             args: BinaryOperatorArguments {
@@ -824,7 +842,7 @@ impl Conjunction {
         );
         component2exec.insert(new_component_nr, new_exec);
 
-        Ok(())
+        Ok(non_reflexive_operands)
     }
 
     pub fn make_exec_plan_with_order<'a>(
@@ -852,6 +870,11 @@ impl Conjunction {
             }
         }
 
+        // apply the node error check
+        if !output.node_search_errors.is_empty() {
+            return Err(output.node_search_errors.remove(0));
+        }
+
         // 2. add unary operators as filter to the existing node search
         for op_spec_entry in self.unary_operators.iter() {
             let child_exec = output
@@ -872,28 +895,48 @@ impl Conjunction {
         }
 
         // 3. add the joins which produce the results in operand order
+        let mut non_reflexive_operands = Vec::new();
         for i in operator_order {
             let op_spec_entry: &BinaryOperatorSpecEntry = &self.binary_operators[i];
-            self.add_binary_operator_to_exec_plan(
+            non_reflexive_operands.extend(self.add_binary_operator_to_exec_plan(
                 op_spec_entry,
                 db,
                 config,
                 &mut output.component2exec,
                 &mut output.helper,
-            )?;
-        }
-
-        // apply the node error check
-        if !output.node_search_errors.is_empty() {
-            return Err(output.node_search_errors.remove(0));
+            )?);
         }
 
         // it must be checked before that all components are connected
-        output.component2exec.into_values().next().ok_or_else(|| {
+        let result = output.component2exec.into_values().next().ok_or_else(|| {
             GraphAnnisError::ImpossibleSearch(String::from(
                 "could not find execution node for query component",
             ))
-        })
+        })?;
+
+        // 4. The joins can only compare their new match with the matches that are already part of
+        // the tuple and filters do not check the reflexivity at all. Make sure that the result
+        // does not depend on the order of the operators by checking the complete tuple.
+        let same_operand = non_reflexive_operands.iter().any(|o| o.left == o.right);
+        if !non_reflexive_operands.is_empty() && (self.binary_operators.len() > 1 || same_operand) {
+            let node_pos = &result
+                .get_desc()
+                .ok_or(GraphAnnisError::PlanDescriptionMissing)?
+                .node_pos;
+            for o in &mut non_reflexive_operands {
+                o.left = *(node_pos
+                    .get(&o.left)
+                    .ok_or(GraphAnnisError::LHSOperandNotFound)?);
+                o.right = *(node_pos
+                    .get(&o.right)
+                    .ok_or(GraphAnnisError::RHSOperandNotFound)?);
+            }
+            return Ok(Box::new(Filter::new_reflexivity(
+                result,
+                non_reflexive_operands,
+            )));
+        }
+        Ok(result)
     }
 
     fn check_components_connected(&self) -> Result<()> {
diff --git a/graphannis/src/annis/db/aql/operators/negated_op.rs b/graphannis/src/annis/db/aql/operators/negated_op.rs
index db88c2f..6995efe 100644
--- a/graphannis/src/annis/db/aql/operators/negated_op.rs
+++ b/graphannis/src/annis/db/aql/operators/negated_op.rs
@@ -6,7 +6,7 @@ use crate::{
         db::exec::CostEstimate,
         operator::{BinaryOperator, BinaryOperatorBase, BinaryOperatorSpec, EstimationType},
     },
-    errors::Result,
+    errors::{GraphAnnisError, Result},
 };
 use graphannis_core::annostorage::Match;
 
@@ -34,7 +34,11 @@ impl BinaryOperatorSpec for NegatedOpSpec {
         db: &'a AnnotationGraph,
         cost_estimate: Option<(&CostEstimate, &CostEstimate)>,
     ) -> Result<BinaryOperator<'a>> {
-        let negated_op = self.negated_op.create_operator(db, cost_estimate)?;
+        let negated_op = match self.negated_op.create_operator(db, cost_estimate) {
+            Ok(op) => Some(op),
+            Err(GraphAnnisError::ImpossibleSearch(_)) => None,
+            Err(e) => return Err(e),
+        };
         let op = NegatedOp { negated_op };
         Ok(BinaryOperator::Base(Box::new(op)))
     }
@@ -51,13 +55,17 @@ impl BinaryOperatorSpec for NegatedOpSpec {
 }
 
 pub struct NegatedOp<'a> {
-    negated_op: BinaryOperator<'a>,
+    /// The operator to negate or `None` if it can never match on this corpus
+    /// (e.g. because of missing components).
+    negated_op: Option<BinaryOperator<'a>>,
 }
 
 impl Display for NegatedOp<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "!",)?;
-        self.negated_op.fmt(f)?;
+        if let Some(op) = &self.negated_op {
+            op.fmt(f)?;
+        }
         Ok(())
     }
 }
@@ -65,16 +73,23 @@ impl Display for NegatedOp<'_> {
 impl BinaryOperatorBase for NegatedOp<'_> {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
         // Invert the filtered logic by the actual operator
-        let orig = self.negated_op.filter_match(lhs, rhs)?;
-        Ok(!orig)
+        match &self.negated_op {
+            Some(op) => Ok(!op.filter_match(lhs, rhs)?),
+            None => Ok(true),
+        }
     }
 
     fn is_reflexive(&self) -> bool {
-        self.negated_op.is_reflexive()
+        // The negation only restricts the operands by the negated relation.
+        // It does not require that the operands are different.
+        true
     }
 
     fn estimation_type(&self) -> Result<EstimationType> {
-        match self.negated_op.estimation_type()? {
+        let Some(negated_op) = &self.negated_op else {
+            return Ok(EstimationType::Selectivity(1.0));
+        };
+        match negated_op.estimation_type()? {
             EstimationType::Selectivity(orig_sel) => {
                 Ok(EstimationType::Selectivity(1.0 - orig_sel))
             }
diff --git a/graphannis/src/annis/db/aql/operators/non_existing.rs b/graphannis/src/annis/db/aql/operators/non_existing.rs
index 5dff03a..31d6251 100644
--- a/graphannis/src/annis/db/aql/operators/non_existing.rs
+++ b/graphannis/src/annis/db/aql/operators/non_existing.rs
@@ -15,9 +15,10 @@ use crate::{
     annis::{
         db::{
             aql::conjunction::Conjunction,
+            exec::MatchValueFilterFunc,
             exec::nodesearch::{NodeSearch, NodeSearchSpec},
         },
-        errors::Result,
+        errors::{GraphAnnisError, Result},
         operator::{
             BinaryOperator, BinaryOperatorBase, BinaryOperatorIndex, BinaryOperatorSpec,
             EstimationType, UnaryOperator, UnaryOperatorSpec,
@@ -91,7 +92,17 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
         g: &'b AnnotationGraph,
     ) -> Result<Box<dyn crate::annis::operator::UnaryOperator + 'b>> {
         let mut target_left = self.target_left;
-        let mut orig_op = self.op.create_operator(g, None)?;
+        // Also report errors in the description of the target
+        let value_filter = self.target.get_value_filter(g, None)?;
+
+        let mut orig_op = match self.op.create_operator(g, None) {
+            Ok(op) => op,
+            Err(GraphAnnisError::ImpossibleSearch(_)) => {
+                // The operator never matches anything on this corpus
+                return Ok(Box::new(AlwaysNonExistingUnaryOperator));
+            }
+            Err(e) => return Err(e),
+        };
 
         if target_left {
             // Check if we can avoid a costly filter operation by switching operands
@@ -111,6 +122,7 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
                     graph: g,
                     op_estimation,
                     negated_op: orig_op,
+                    value_filter,
                 })
             } else {
                 self.create_filter_operator(g, orig_op, target_left, op_estimation)
@@ -123,8 +135,28 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
     }
 }
 
+/// Used if the negated operator can't match any node.
+struct AlwaysNonExistingUnaryOperator;
+
+impl Display for AlwaysNonExistingUnaryOperator {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, " !(impossible)")
+    }
+}
+
+impl UnaryOperator for AlwaysNonExistingUnaryOperator {
+    fn filter_match(&self, _m: &graphannis_core::annostorage::Match) -> Result<bool> {
+        Ok(true)
+    }
+
+    fn estimation_type(&self) -> EstimationType {
+        EstimationType::Selectivity(1.0)
+    }
+}
+
 struct NonExistingUnaryOperatorIndex<'a> {
     target: NodeSearchSpec,
+    value_filter: Vec<MatchValueFilterFunc>,
     negated_op: Box<dyn BinaryOperatorIndex + 'a>,
     graph: &'a AnnotationGraph,
     op_estimation: EstimationType,
@@ -159,17 +191,12 @@ impl UnaryOperator for NonExistingUnaryOperatorIndex<'_> {
             Box::new(it),
         )?;
 
-        let value_filter = self
-            .target
-            .get_value_filter(self.graph, None)
-            .unwrap_or_default();
-
         // Only return true if no match was found which matches the operator and
         // the node value filter
         for c in candidates {
             // The candidate is only a positive match if *all* filter match
             let mut candidate_is_match = true;
-            for f in value_filter.iter() {
+            for f in self.value_filter.iter() {
                 if !f(&c, self.graph.get_node_annos())? {
                     // Filter is false, and thus the candidate is not a match
                     candidate_is_match = false;
diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index 84bd555..d5a40bb 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -2,7 +2,9 @@ use graphannis_core::annostorage::MatchGroup;
 use itertools::Itertools;
 
 use super::{CostEstimate, ExecutionNode, ExecutionNodeDesc};
-use crate::annis::db::aql::conjunction::{BinaryOperatorEntry, UnaryOperatorEntry};
+use crate::annis::db::aql::conjunction::{
+    BinaryOperatorEntry, NonReflexiveOperands, UnaryOperatorEntry,
+};
 use crate::annis::operator::{BinaryOperatorBase, EstimationType, UnaryOperator};
 use crate::errors::Result;
 
@@ -85,6 +87,31 @@ impl<'a> Filter<'a> {
         })
     }
 
+    /// Only include tuples where the operands of all non-reflexive operators are different.
+    pub fn new_reflexivity(
+        exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
+        operands: Vec<NonReflexiveOperands>,
+    ) -> Filter<'a> {
+        let desc = exec.get_desc().cloned();
+        let it = exec.filter_ok(move |tuple| {
+            operands.iter().all(|o| {
+                let different = tuple[o.left].different_to(&tuple[o.right]);
+                different
+                    && (!o.global_reflexivity
+                        || [o.left, o.right].into_iter().all(|idx| {
+                            tuple
+                                .iter()
+                                .enumerate()
+                                .all(|(other, m)| other == idx || m.different_to(&tuple[idx]))
+                        }))
+            })
+        });
+        Filter {
+            desc,
+            it: Box::new(it),
+        }
+    }
+
     pub fn new_unary(
         exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         idx: usize,
-- 
2.43.0


From 36bf66b86cf8fefb1d8026a094c97189e217be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 35/51] fix: alternatives with different optional nodes
 returned the wrong nodes of a match and hid errors

---
 graphannis/src/annis/db/aql/conjunction.rs |  34 ++++++
 graphannis/src/annis/db/aql/disjunction.rs |  20 ----
 graphannis/src/annis/db/aql/mod.rs         |  18 +---
 graphannis/src/annis/db/corpusstorage.rs   | 120 +++++++++++----------
 graphannis/src/annis/db/plan.rs            |  52 +++++++--
 5 files changed, 144 insertions(+), 100 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 64d9cc0..e9aed0b 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -402,6 +402,40 @@ impl Conjunction {
         self.include_in_output.contains(variable)
     }
 
+    /// Return the positions (inside this conjunction) of the nodes that are part of the match
+    /// output or `None` if all nodes are part of it.
+    pub fn get_output_positions(&self) -> Option<Vec<usize>> {
+        let positions: Vec<usize> = (0..self.nodes.len())
+            .filter(|i| self.is_included_in_output(&self.nodes[*i].var))
+            .collect();
+        if positions.len() == self.nodes.len() {
+            None
+        } else {
+            Some(positions)
+        }
+    }
+
+    pub fn has_variable(&self, variable: &str) -> bool {
+        self.variables.contains_key(variable)
+    }
+
+    /// Return true if there are nodes which are matched but not part of the output.
+    pub fn has_non_optional_node_not_in_output(&self) -> bool {
+        self.nodes
+            .iter()
+            .any(|n| !n.optional && !self.is_included_in_output(&n.var))
+    }
+
+    /// Get the position of the variable in the matches of this conjunction.
+    pub fn get_output_position_for_variable(&self, variable: &str) -> Option<usize> {
+        let pos = *self.variables.get(variable)?;
+        if let Some(output_positions) = self.get_output_positions() {
+            output_positions.iter().position(|p| *p == pos)
+        } else {
+            Some(pos)
+        }
+    }
+
     /// Return the variable name for a node number. The node number is the
     /// position of a node description in the query. In case of a query with
     /// multiple alternatives, this refers to the node number of the whole query and
diff --git a/graphannis/src/annis/db/aql/disjunction.rs b/graphannis/src/annis/db/aql/disjunction.rs
index b9613bf..9674502 100644
--- a/graphannis/src/annis/db/aql/disjunction.rs
+++ b/graphannis/src/annis/db/aql/disjunction.rs
@@ -35,24 +35,4 @@ impl Disjunction {
         }
         None
     }
-
-    /// Return the variable name for a node number. The node number is the
-    /// position of an AQL query node in the disjunction.
-    pub(crate) fn get_variable_by_node_nr(&self, node_nr: usize) -> Option<String> {
-        for alt in &self.alternatives {
-            if let Some(var) = alt.get_variable_by_node_nr(node_nr) {
-                return Some(var);
-            }
-        }
-        None
-    }
-
-    pub(crate) fn is_included_in_output(&self, variable: &str) -> bool {
-        for alt in &self.alternatives {
-            if alt.is_included_in_output(variable) {
-                return true;
-            }
-        }
-        false
-    }
 }
diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index fa8ead0..dfaa29e 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -78,22 +78,8 @@ pub fn execute_query_on_graph<'a>(
     let timeout = TimeoutCheck::new(timeout);
 
     let config = Config { use_parallel_joins };
-    let it = ExecutionPlan::from_disjunction(query, graph, &config, timeout)?
-        .map_ok(|mg| {
-            // Rewrite match group to only include nodes that are included in the query
-            // check if query node actually should be included
-            let mut new_match_group = MatchGroup::with_capacity(mg.len());
-            for (node_nr, m) in mg.into_iter().enumerate() {
-                let include_in_output = query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| query.is_included_in_output(&var));
-                if include_in_output {
-                    new_match_group.push(m);
-                }
-            }
-            new_match_group
-        })
-        .unique_by(move |mg| {
+    let it =
+        ExecutionPlan::from_disjunction(query, graph, &config, timeout)?.unique_by(move |mg| {
             // Map an error to an empty match group
             match mg {
                 Ok(mg) => mg.clone(),
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 840222f..e1185fd 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1914,60 +1914,49 @@ impl CorpusStorage {
 
             let mut any_nodes_added = false;
 
-            for (node_nr, singlematch) in m.iter().enumerate() {
-                // check if query node actually should be included
-                let include_in_output = prep
-                    .query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| prep.query.is_included_in_output(&var));
-
-                if include_in_output {
-                    if any_nodes_added {
-                        match_desc.push(' ');
-                    }
-                    any_nodes_added = true;
+            for singlematch in m.iter() {
+                if any_nodes_added {
+                    match_desc.push(' ');
+                }
+                any_nodes_added = true;
 
-                    let singlematch_anno_key = &singlematch.anno_key;
-                    if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE
-                    {
-                        if !singlematch_anno_key.ns.is_empty() {
-                            let encoded_anno_ns: Cow<str> =
-                                utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
-                                    .into();
-                            match_desc.push_str(&encoded_anno_ns);
-                            match_desc.push_str("::");
-                        }
-                        let encoded_anno_name: Cow<str> =
-                            utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                let singlematch_anno_key = &singlematch.anno_key;
+                if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE {
+                    if !singlematch_anno_key.ns.is_empty() {
+                        let encoded_anno_ns: Cow<str> =
+                            utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
                                 .into();
-                        match_desc.push_str(&encoded_anno_name);
+                        match_desc.push_str(&encoded_anno_ns);
                         match_desc.push_str("::");
                     }
+                    let encoded_anno_name: Cow<str> =
+                        utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                            .into();
+                    match_desc.push_str(&encoded_anno_name);
+                    match_desc.push_str("::");
+                }
 
-                    if let Some(node_name) = db
-                        .get_node_annos()
-                        .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
-                    {
-                        if quirks_mode {
-                            // Unescape all parts of the name and re-escape with
-                            // quirks-mode compatible character encoding set
-                            let re_encoded_name = node_name
-                                .split('/')
-                                .map(|n| {
-                                    let decoded_name =
-                                        percent_encoding::percent_decode_str(n).decode_utf8_lossy();
-                                    let re_encoded_name: Cow<str> = utf8_percent_encode(
-                                        &decoded_name,
-                                        QUIRKS_SALT_URI_ENCODE_SET,
-                                    )
-                                    .into();
-                                    re_encoded_name.to_string()
-                                })
-                                .join("/");
-                            match_desc.push_str(&re_encoded_name);
-                        } else {
-                            match_desc.push_str(&node_name);
-                        }
+                if let Some(node_name) = db
+                    .get_node_annos()
+                    .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
+                {
+                    if quirks_mode {
+                        // Unescape all parts of the name and re-escape with
+                        // quirks-mode compatible character encoding set
+                        let re_encoded_name = node_name
+                            .split('/')
+                            .map(|n| {
+                                let decoded_name =
+                                    percent_encoding::percent_decode_str(n).decode_utf8_lossy();
+                                let re_encoded_name: Cow<str> =
+                                    utf8_percent_encode(&decoded_name, QUIRKS_SALT_URI_ENCODE_SET)
+                                        .into();
+                                re_encoded_name.to_string()
+                            })
+                            .join("/");
+                        match_desc.push_str(&re_encoded_name);
+                    } else {
+                        match_desc.push_str(&node_name);
                     }
                 }
             }
@@ -2288,14 +2277,27 @@ impl CorpusStorage {
             let lock = prep.db_entry.read()?;
             let db: &AnnotationGraph = get_read_or_error(&lock)?;
 
-            // get the matching annotation keys for each definition entry
-            let mut annokeys: Vec<(usize, Vec<AnnoKey>)> = Vec::default();
+            // Get the matching annotation keys and the position of the node in the match for each
+            // definition entry. The position depends on the alternative the match belongs to.
+            let mut annokeys: Vec<(Vec<Option<usize>>, Vec<AnnoKey>)> = Vec::default();
             for def in definition.iter() {
                 if let Some(node_ref) = prep.query.get_variable_pos(&def.node_ref) {
+                    let node_positions = prep
+                        .query
+                        .alternatives
+                        .iter()
+                        .map(|alt| {
+                            if alt.has_variable(&def.node_ref) {
+                                alt.get_output_position_for_variable(&def.node_ref)
+                            } else {
+                                Some(node_ref)
+                            }
+                        })
+                        .collect();
                     if let Some(ns) = &def.ns {
                         // add the single fully qualified annotation key
                         annokeys.push((
-                            node_ref,
+                            node_positions,
                             vec![AnnoKey {
                                 ns: ns.clone(),
                                 name: def.name.clone(),
@@ -2303,24 +2305,26 @@ impl CorpusStorage {
                         ));
                     } else {
                         // add all matching annotation keys
-                        annokeys.push((node_ref, db.get_node_annos().get_qnames(&def.name)?));
+                        annokeys.push((node_positions, db.get_node_annos().get_qnames(&def.name)?));
                     }
                 }
             }
 
-            let plan =
+            let mut plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
             let mut total_count: u64 = 0;
 
-            for mgroup in plan {
+            while let Some(mgroup) = plan.next() {
                 let mgroup = mgroup?;
+                let alternative = plan.current_alternative();
 
                 // for each match, extract the defined annotation (by its key) from the result node
                 let mut tuple: Vec<String> = Vec::with_capacity(annokeys.len());
-                for (node_ref, anno_keys) in &annokeys {
+                for (node_positions, anno_keys) in &annokeys {
                     let mut tuple_val: String = String::default();
-                    if *node_ref < mgroup.len() {
-                        let m: &Match = &mgroup[*node_ref];
+                    if let Some(pos) = node_positions.get(alternative).copied().flatten()
+                        && let Some(m) = mgroup.get(pos)
+                    {
                         for k in anno_keys.iter() {
                             if let Some(val) = db.get_node_annos().get_value_for_item(&m.node, k)? {
                                 tuple_val = val.to_string();
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 00d58c9..8d03178 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -19,6 +19,11 @@ pub struct ExecutionPlan<'a> {
     current_plan: usize,
     descriptions: Vec<Option<ExecutionNodeDesc>>,
     inverse_node_pos: Vec<Option<Vec<usize>>>,
+    /// For each plan the index of the alternative in the query.
+    alternatives: Vec<usize>,
+    /// For each plan the positions of the nodes (inside the alternative) which are part of the
+    /// result. This is not set if all nodes are included.
+    output_positions: Vec<Option<Vec<usize>>>,
     proxy_mode: bool,
     unique_result_set: BtreeIndex<Vec<(NodeID, usize)>, bool>,
     anno_key_symbols: SymbolTable<AnnoKey>,
@@ -34,7 +39,9 @@ impl<'a> ExecutionPlan<'a> {
         let mut plans: Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>> = Vec::new();
         let mut descriptions = Vec::new();
         let mut inverse_node_pos = Vec::new();
-        for alt in &query.alternatives {
+        let mut alternatives = Vec::new();
+        let mut output_positions = Vec::new();
+        for (alt_idx, alt) in query.alternatives.iter().enumerate() {
             let p = alt.make_exec_node(db, config, timeout);
             if let Ok(p) = p {
                 descriptions.push(p.get_desc().cloned());
@@ -66,36 +73,69 @@ impl<'a> ExecutionPlan<'a> {
                 }
 
                 plans.push(p);
+                alternatives.push(alt_idx);
+                output_positions.push(alt.get_output_positions());
             } else if let Err(e) = p
-                && let GraphAnnisError::AQLSemanticError(_) = &e
+                && !matches!(e, GraphAnnisError::ImpossibleSearch(_))
             {
                 return Err(e);
             }
         }
 
+        // Optional nodes are never part of a match, but matches which only differ in some other node
+        // that is not part of the result (like a meta data constraint) must be filtered.
+        let needs_unique_filter = query
+            .alternatives
+            .iter()
+            .any(|alt| alt.has_non_optional_node_not_in_output());
+
         if plans.is_empty() {
             // add a dummy execution step that yields no results
             let no_results_exec = EmptyResultSet {};
             plans.push(Box::new(no_results_exec));
             descriptions.push(None);
+            inverse_node_pos.push(None);
+            alternatives.push(0);
+            output_positions.push(None);
         }
         let btree_config = BtreeConfig::default().fixed_value_size(std::mem::size_of::<bool>());
         Ok(ExecutionPlan {
             current_plan: 0,
             descriptions,
             inverse_node_pos,
-            proxy_mode: plans.len() == 1,
+            proxy_mode: plans.len() == 1 && !needs_unique_filter,
+            alternatives,
+            output_positions,
             plans,
             unique_result_set: BtreeIndex::with_capacity(btree_config, 10_000)?,
             anno_key_symbols: SymbolTable::new(),
         })
     }
 
+    /// Returns the index of the query alternative the last returned match belongs to.
+    pub fn current_alternative(&self) -> usize {
+        self.alternatives
+            .get(self.current_plan)
+            .copied()
+            .unwrap_or_default()
+    }
+
     /// Re-orders the match vector from the top execution node to match the
-    /// requested query node order. If query nodes are not part of the result,
-    /// they are still included in the vector but you can not use the node ID at
-    /// this position.
+    /// requested query node order. If query nodes are not part of the result
+    /// (e.g. because they are optional), they are not included in the vector.
     fn reorder_match(&self, tmp: MatchGroup) -> MatchGroup {
+        let result = self.reorder_all_nodes(tmp);
+        if let Some(output_positions) = &self.output_positions[self.current_plan] {
+            output_positions
+                .iter()
+                .filter_map(|pos| result.get(*pos).cloned())
+                .collect()
+        } else {
+            result
+        }
+    }
+
+    fn reorder_all_nodes(&self, tmp: MatchGroup) -> MatchGroup {
         if let Some(inverse_node_pos) = &self.inverse_node_pos[self.current_plan] {
             // re-order the matched nodes by the original node position of the query
             let mut result = MatchGroup::new();
-- 
2.43.0


From f680bff19b2106d6aab4631c5f452d3f632362fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:39 +0000
Subject: [PATCH 36/51] fix: linear and pre/post order storage did not connect
 nodes outside of the component with themselves, single token were not found

---
 core/src/graph/storage/linear.rs  | 11 +++++++++++
 core/src/graph/storage/prepost.rs |  9 +++++++++
 2 files changed, 20 insertions(+)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index 3ebff5b..c2b620f 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -206,6 +206,10 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
+        if min_distance == 0 && !self.node_to_pos.contains_key(&source) {
+            // Each node is connected with itself, even if it is not part of the component
+            return Box::new(std::iter::once(Ok(source)));
+        }
         if let Some(start_pos) = self.node_to_pos.get(&source)
             && let Some(chain) = self.node_chains.get(&start_pos.root)
             && let Some(offset) = start_pos.pos.to_usize()
@@ -234,6 +238,10 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
+        if min_distance == 0 && !self.node_to_pos.contains_key(&source) {
+            // Each node is connected with itself, even if it is not part of the component
+            return Box::new(std::iter::once(Ok(source)));
+        }
         if let Some(start_pos) = self.node_to_pos.get(&source)
             && let Some(chain) = self.node_chains.get(&start_pos.root)
             && let Some(offset) = start_pos.pos.to_usize()
@@ -282,6 +290,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target && min_distance == 0 {
+            return Ok(true);
+        }
         if let (Some(source_pos), Some(target_pos)) =
             (self.node_to_pos.get(&source), self.node_to_pos.get(&target))
             && source_pos.root == target_pos.root
diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index a8a3a5a..753830a 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -285,6 +285,9 @@ where
                 .filter(move |n| visited.insert(*n))
                 .map(Ok);
             Box::new(it)
+        } else if min_distance == 0 {
+            // Each node is connected with itself, even if it is not part of the component
+            Box::new(std::iter::once(Ok(node)))
         } else {
             Box::new(std::iter::empty())
         }
@@ -384,6 +387,9 @@ where
                 .filter(move |n| visited.insert(*n))
                 .map(Ok);
             Box::new(it)
+        } else if min_distance == 0 {
+            // Each node is connected with itself, even if it is not part of the component
+            Box::new(std::iter::once(Ok(start_node)))
         } else {
             Box::new(std::iter::empty())
         }
@@ -432,6 +438,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target && min_distance == 0 {
+            return Ok(true);
+        }
         if let (Some(order_source), Some(order_target)) = (
             self.node_to_order.get(&source),
             self.node_to_order.get(&target),
-- 
2.43.0


From 3f662ecc904c9ef67a547263a904e0579c984b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:39 +0000
Subject: [PATCH 37/51] fix: inclusion and overlap operators missed matches if
 the token order is stored as disk paths

---
 .../src/annis/db/aql/operators/inclusion.rs   | 43 ++++++++++++++-----
 .../src/annis/db/aql/operators/overlap.rs     |  4 +-
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/inclusion.rs b/graphannis/src/annis/db/aql/operators/inclusion.rs
index fb6a2cd..7ff5340 100644
--- a/graphannis/src/annis/db/aql/operators/inclusion.rs
+++ b/graphannis/src/annis/db/aql/operators/inclusion.rs
@@ -84,6 +84,34 @@ impl<'a> Inclusion<'a> {
             tok_helper,
         })
     }
+
+    /// Get the number of ordering edges between the first and the last token.
+    ///
+    /// The distance of a token to itself is not defined for all graph storage implementations.
+    fn span_length(&self, start: NodeID, end: NodeID) -> Result<Option<usize>> {
+        if start == end {
+            Ok(Some(0))
+        } else {
+            Ok(self.gs_order.distance(start, end)?)
+        }
+    }
+
+    /// Check that both token are the same or that there is a path between them with the maximum
+    /// length `max_distance`.
+    fn is_same_or_precedes(
+        &self,
+        first: NodeID,
+        second: NodeID,
+        max_distance: usize,
+    ) -> Result<bool> {
+        Ok(first == second
+            || self.gs_order.is_connected(
+                first,
+                second,
+                1,
+                std::ops::Bound::Included(max_distance),
+            )?)
+    }
 }
 
 impl std::fmt::Display for Inclusion<'_> {
@@ -103,11 +131,11 @@ impl BinaryOperatorBase for Inclusion<'_> {
             left_right_rhs.1,
         ) {
             // span length of LHS
-            if let Some(l) = self.gs_order.distance(start_lhs, end_lhs)? {
+            if let Some(l) = self.span_length(start_lhs, end_lhs)? {
                 // path between left-most tokens exists in ORDERING component and has maximum length l
-                if self.gs_order.is_connected(start_lhs, start_rhs, 0, std::ops::Bound::Included(l))?
+                if self.is_same_or_precedes(start_lhs, start_rhs, l)?
                 // path between right-most tokens exists in ORDERING component and has maximum length l
-                && self.gs_order.is_connected(end_rhs, end_lhs, 0, std::ops::Bound::Included(l))?
+                && self.is_same_or_precedes(end_rhs, end_lhs, l)?
                 {
                     return Ok(true);
                 }
@@ -165,7 +193,7 @@ impl BinaryOperatorIndex for Inclusion<'_> {
         let left_right_token = try_as_boxed_iter!(self.tok_helper.left_right_token_for(lhs.node));
         if let (Some(start_lhs), Some(end_lhs)) = left_right_token {
             // span length of LHS
-            let l = try_as_boxed_iter!(self.gs_order.distance(start_lhs, end_lhs));
+            let l = try_as_boxed_iter!(self.span_length(start_lhs, end_lhs));
             if let Some(l) = l {
                 // find each token which is between the left and right border
                 let overlapped_token =
@@ -203,12 +231,7 @@ impl BinaryOperatorIndex for Inclusion<'_> {
                                     self.tok_helper.get_gs_right_token().get_outgoing_edges(n);
                                 if let Some(end_n) = end_n.next() {
                                     let end_n = end_n?;
-                                    if self.gs_order.is_connected(
-                                        end_n,
-                                        end_lhs,
-                                        0,
-                                        std::ops::Bound::Included(l),
-                                    )? {
+                                    if self.is_same_or_precedes(end_n, end_lhs, l)? {
                                         // path between right-most tokens exists in ORDERING component
                                         // and has maximum length l
                                         return Ok(Some(n));
diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index 9871f00..ff0b248 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -134,9 +134,9 @@ impl BinaryOperatorBase for Overlap<'_> {
         ) {
             // TODO: why not isConnected()? (instead of distance)
             // path between LHS left-most token and RHS right-most token exists in ORDERING component
-            if self.gs_order.distance(start_lhs, end_rhs)?.is_some()
+            if (start_lhs == end_rhs || self.gs_order.distance(start_lhs, end_rhs)?.is_some())
                 // path between LHS left-most token and RHS right-most token exists in ORDERING component
-                && self.gs_order.distance(start_rhs, end_lhs)?.is_some()
+                && (start_rhs == end_lhs || self.gs_order.distance(start_rhs, end_lhs)?.is_some())
             {
                 // The nodes can be discontinuous: check that they actually share a token
                 return self.has_shared_token(lhs.node, rhs.node);
-- 
2.43.0


From c19ec097d145dfbfbc08a82d74f6eb6aa0bffec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:39 +0000
Subject: [PATCH 38/51] Guarded hook: pivot choice of the sorting algorithm for
 the model checker

---
 graphannis/src/annis/util/quicksort.rs |  2 ++
 graphannis/src/lib.rs                  |  3 +++
 graphannis/src/mc.rs                   | 26 ++++++++++++++++++++++++++
 3 files changed, 31 insertions(+)
 create mode 100644 graphannis/src/mc.rs

diff --git a/graphannis/src/annis/util/quicksort.rs b/graphannis/src/annis/util/quicksort.rs
index 2c3d7fc..a128874 100644
--- a/graphannis/src/annis/util/quicksort.rs
+++ b/graphannis/src/annis/util/quicksort.rs
@@ -115,6 +115,8 @@ where
         let i1 = rng.random_range(item_range.clone());
         let i2 = rng.random_range(item_range.clone());
         let i3 = rng.random_range(item_range.clone());
+        #[cfg(graphannis_mc)]
+        let [i1, i2, i3] = crate::mc::pivots(&item_range).unwrap_or([i1, i2, i3]);
 
         let v1 = (i1, items.try_get(i1)?.into_owned());
         let v2 = (i2, items.try_get(i2)?.into_owned());
diff --git a/graphannis/src/lib.rs b/graphannis/src/lib.rs
index fee1814..79dc453 100644
--- a/graphannis/src/lib.rs
+++ b/graphannis/src/lib.rs
@@ -1,6 +1,7 @@
 //! This is a graph-based linguistic corpus query system which implements the ANNIS Query Language (AQL).
 //! The main entry point to the API is the [CorpusStorage](struct.CorpusStorage.html) struct which allows to manage and query a database of corpora.
 
+#![allow(unexpected_cfgs)]
 #![deny(
     clippy::panic,
     clippy::panic_in_result_fn,
@@ -23,6 +24,8 @@ extern crate lazy_static;
 extern crate lalrpop_util;
 
 mod annis;
+#[cfg(graphannis_mc)]
+pub mod mc;
 
 pub use crate::annis::db::corpusstorage::CorpusStorage;
 
diff --git a/graphannis/src/mc.rs b/graphannis/src/mc.rs
new file mode 100644
index 0000000..c74752f
--- /dev/null
+++ b/graphannis/src/mc.rs
@@ -0,0 +1,26 @@
+//! Instrumentation for the model checker, only compiled with `--cfg graphannis_mc`.
+use std::cell::RefCell;
+use std::ops::Range;
+
+type PivotChoice = Box<dyn FnMut(Range<usize>) -> [usize; 3]>;
+
+thread_local! {
+    static PIVOTS: RefCell<Option<PivotChoice>> = const { RefCell::new(None) };
+}
+
+/// Choose the candidates for the pivot element of the sorting algorithm in the current thread.
+pub fn set_pivots(choice: Option<PivotChoice>) {
+    PIVOTS.with(|p| *p.borrow_mut() = choice);
+}
+
+pub(crate) fn pivots(range: &Range<usize>) -> Option<[usize; 3]> {
+    PIVOTS.with(|p| p.borrow_mut().as_mut().map(|f| f(range.clone())))
+}
+
+/// Sort the first `n` items.
+pub fn sort_first_n_items(
+    items: &mut Vec<u32>,
+    n: usize,
+) -> std::result::Result<(), crate::errors::GraphAnnisError> {
+    crate::annis::util::quicksort::sort_first_n_items(items, n, |a: &u32, b: &u32| Ok(a.cmp(b)))
+}
-- 
2.43.0


From e55bcf9f11cefb99f63267e91bf1fc778fce8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:30 +0000
Subject: [PATCH 39/51] fix: order of search results with several texts in a
 document or without covered token was not transitive

---
 graphannis/src/annis/db/sort_matches.rs | 108 +++++++++++++++++++-----
 1 file changed, 88 insertions(+), 20 deletions(-)

diff --git a/graphannis/src/annis/db/sort_matches.rs b/graphannis/src/annis/db/sort_matches.rs
index 83fffb0..b4e036a 100644
--- a/graphannis/src/annis/db/sort_matches.rs
+++ b/graphannis/src/annis/db/sort_matches.rs
@@ -21,6 +21,7 @@ pub(crate) struct SortCache {
     node_name: LruCache<NodeID, String>,
     left_token: LruCache<NodeID, Option<NodeID>>,
     is_connected: LruCache<(NodeID, NodeID), bool>,
+    first_token: LruCache<NodeID, NodeID>,
     gs_order: Option<Arc<dyn GraphStorage>>,
 }
 
@@ -32,6 +33,7 @@ impl SortCache {
             node_name: LruCache::new(CACHE_SIZE),
             left_token: LruCache::new(CACHE_SIZE),
             is_connected: LruCache::new(CACHE_SIZE),
+            first_token: LruCache::new(CACHE_SIZE),
             gs_order,
         }
     }
@@ -130,29 +132,49 @@ impl SortCache {
                         result
                     };
 
-                    if let (Some(m1_lefttok), Some(m2_lefttok)) = (m1_lefttok, m2_lefttok) {
-                        let token_are_connected =
-                            if let Some(v) = self.is_connected.get(&(m1_lefttok, m2_lefttok)) {
-                                *v
-                            } else {
-                                gs_order.is_connected(
+                    match (m1_lefttok, m2_lefttok) {
+                        (Some(m1_lefttok), Some(m2_lefttok)) => {
+                            let token_are_connected =
+                                if let Some(v) = self.is_connected.get(&(m1_lefttok, m2_lefttok)) {
+                                    *v
+                                } else {
+                                    gs_order.is_connected(
+                                        m1_lefttok,
+                                        m2_lefttok,
+                                        1,
+                                        std::ops::Bound::Unbounded,
+                                    )?
+                                };
+
+                            if token_are_connected {
+                                return Ok(Ordering::Less);
+                            } else if gs_order.is_connected(
+                                m2_lefttok,
+                                m1_lefttok,
+                                1,
+                                std::ops::Bound::Unbounded,
+                            )? {
+                                return Ok(Ordering::Greater);
+                            } else if m1_lefttok != m2_lefttok {
+                                // The nodes belong to different texts of the same document. All nodes
+                                // of one text must be sorted before the nodes of the other text.
+                                let texts_cmp = compare_texts(
                                     m1_lefttok,
                                     m2_lefttok,
-                                    1,
-                                    std::ops::Bound::Unbounded,
-                                )?
-                            };
-
-                        if token_are_connected {
-                            return Ok(Ordering::Less);
-                        } else if gs_order.is_connected(
-                            m2_lefttok,
-                            m1_lefttok,
-                            1,
-                            std::ops::Bound::Unbounded,
-                        )? {
-                            return Ok(Ordering::Greater);
+                                    gs_order.as_ref(),
+                                    &mut self.first_token,
+                                    node_annos,
+                                    collation,
+                                )?;
+                                if texts_cmp != Ordering::Equal {
+                                    return Ok(texts_cmp);
+                                }
+                            }
                         }
+                        // Sort nodes that do not cover any token before the ones with a text position
+                        (None, Some(_)) => return Ok(Ordering::Less),
+                        (Some(_), None) => return Ok(Ordering::Greater),
+                        (None, None) => {}
                     }
                 }
 
@@ -169,6 +191,52 @@ impl SortCache {
     }
 }
 
+/// Compare the texts two token belong to. Each text is identified by its first token.
+fn compare_texts(
+    t1: NodeID,
+    t2: NodeID,
+    gs_order: &dyn GraphStorage,
+    first_token_cache: &mut LruCache<NodeID, NodeID>,
+    node_annos: &dyn NodeAnnotationStorage,
+    collation: CollationType,
+) -> Result<Ordering> {
+    let first1 = first_token_for(t1, gs_order, first_token_cache)?;
+    let first2 = first_token_for(t2, gs_order, first_token_cache)?;
+    if first1 == first2 {
+        return Ok(Ordering::Equal);
+    }
+    let name1 = node_annos.get_value_for_item(&first1, &NODE_NAME_KEY)?;
+    let name2 = node_annos.get_value_for_item(&first2, &NODE_NAME_KEY)?;
+    if let (Some(name1), Some(name2)) = (name1, name2) {
+        let name_cmp = compare_string(&name1, &name2, collation);
+        if name_cmp != Ordering::Equal {
+            return Ok(name_cmp);
+        }
+    }
+    Ok(first1.cmp(&first2))
+}
+
+/// Get the first token of the text the given token belongs to.
+fn first_token_for(
+    token: NodeID,
+    gs_order: &dyn GraphStorage,
+    first_token_cache: &mut LruCache<NodeID, NodeID>,
+) -> Result<NodeID> {
+    if let Some(first_token) = first_token_cache.get(&token) {
+        return Ok(*first_token);
+    }
+    let mut first_token = token;
+    for n in gs_order.find_connected_inverse(token, 1, std::ops::Bound::Unbounded) {
+        let n = n?;
+        if gs_order.get_ingoing_edges(n).next().is_none() {
+            first_token = n;
+            break;
+        }
+    }
+    first_token_cache.put(token, first_token);
+    Ok(first_token)
+}
+
 fn split_path_and_nodename(full_node_name: &str) -> (&str, &str) {
     full_node_name
         .rsplit_once('#')
-- 
2.43.0


From 3175956a009dd4d4de60bc17a069e16faf153388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:30 +0000
Subject: [PATCH 40/51] fix: search with large limits aborted the process or
 returned an unsorted page, errors of skipped matches were ignored

---
 graphannis/src/annis/db/corpusstorage.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index e1185fd..db8d09b 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -394,6 +394,9 @@ fn init_locale() {
     }
 }
 
+/// Maximum number of result entries to allocate memory for before their actual number is known.
+const MAX_PREALLOCATED_RESULTS: usize = 10_000;
+
 /// Creates a new vector with the capacity to hold the expected number of items, but make sure the
 /// capacity is memory aligned with the page size (only full pages are allocated).
 fn new_vector_with_memory_aligned_capacity<T>(expected_len: usize) -> Vec<T> {
@@ -1817,7 +1820,7 @@ impl CorpusStorage {
 
                 let sort_size = if let Some(limit) = find_arguments.limit {
                     // we won't need to sort all items
-                    find_arguments.offset + limit
+                    find_arguments.offset.saturating_add(limit)
                 } else {
                     // sort all items if unlimited iterator is requested
                     tmp_results.len()
@@ -1887,14 +1890,18 @@ impl CorpusStorage {
         let mut results: Vec<String> = if let Some(expected_size) = expected_size {
             new_vector_with_memory_aligned_capacity(expected_size)
         } else if let Some(limit) = find_arguments.limit {
-            new_vector_with_memory_aligned_capacity(limit)
+            // The limit is given by the user and can be much larger than the actual result
+            new_vector_with_memory_aligned_capacity(limit.min(MAX_PREALLOCATED_RESULTS))
         } else {
             Vec::new()
         };
 
         // skip the first entries
         let mut skipped = 0;
-        while skipped < find_arguments.offset && base_it.next().is_some() {
+        while skipped < find_arguments.offset
+            && let Some(m) = base_it.next()
+        {
+            m?;
             skipped += 1;
 
             if skipped % 1_000 == 0 {
-- 
2.43.0


From 45ae76b229bac1d0a6afb4050c03a7d144f7bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 41/51] fix: very long queries, huge numbers and the empty
 query crashed the parser

---
 core/src/graph/storage/linear.rs           |  6 +-
 graphannis/src/annis/db/aql/mod.rs         | 82 ++++++++++++++++++++--
 graphannis/src/annis/db/aql/parser.lalrpop | 12 ++--
 3 files changed, 88 insertions(+), 12 deletions(-)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index c2b620f..369440a 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -220,8 +220,10 @@ where
                 std::ops::Bound::Unbounded => {
                     return Box::new(chain[min_distance..].iter().map(|n| Ok(*n)));
                 }
-                std::ops::Bound::Included(max_distance) => offset + max_distance + 1,
-                std::ops::Bound::Excluded(max_distance) => offset + max_distance,
+                std::ops::Bound::Included(max_distance) => {
+                    offset.saturating_add(max_distance).saturating_add(1)
+                }
+                std::ops::Bound::Excluded(max_distance) => offset.saturating_add(max_distance),
             };
             // clip to chain length
             let max_distance = std::cmp::min(chain.len(), max_distance);
diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index dfaa29e..570459c 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -33,6 +33,10 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Duration;
 
+/// Maximum nesting depth of an expression that is transformed to the disjunctive
+/// normal form with a recursive algorithm.
+const MAX_RECURSION_DEPTH: usize = 100;
+
 thread_local! {
     static AQL_PARSER: parser::DisjunctionParser = parser::DisjunctionParser::new();
 }
@@ -470,6 +474,71 @@ fn get_alternatives_from_dnf(expr: ast::Expr) -> Vec<Vec<ast::Literal>> {
     vec![]
 }
 
+/// Returns true if the expression is nested deeper than the given limit.
+fn is_deeper_than(expr: &ast::Expr, limit: usize) -> bool {
+    let mut todo = vec![(expr, 0)];
+    while let Some((expr, depth)) = todo.pop() {
+        if depth > limit {
+            return true;
+        }
+        match expr {
+            Expr::And(lhs, rhs) | Expr::Or(lhs, rhs) => {
+                todo.push((lhs, depth + 1));
+                todo.push((rhs, depth + 1));
+            }
+            Expr::Not(e) => todo.push((e, depth + 1)),
+            Expr::Terminal(_) | Expr::Const(_) => {}
+        }
+    }
+    false
+}
+
+/// Get all alternatives of an expression without using recursion and thus
+/// without any limit on how deep the expression is nested.
+fn get_alternatives_of_deep_expr(expr: ast::Expr) -> Vec<Vec<ast::Literal>> {
+    enum Step {
+        Visit(ast::Expr),
+        And,
+        Or,
+    }
+
+    let mut todo = vec![Step::Visit(expr)];
+    let mut finished: Vec<Vec<Vec<ast::Literal>>> = Vec::new();
+    while let Some(step) = todo.pop() {
+        match step {
+            Step::Visit(Expr::And(lhs, rhs)) => {
+                todo.extend([Step::And, Step::Visit(*rhs), Step::Visit(*lhs)]);
+            }
+            Step::Visit(Expr::Or(lhs, rhs)) => {
+                todo.extend([Step::Or, Step::Visit(*rhs), Step::Visit(*lhs)]);
+            }
+            Step::Visit(Expr::Terminal(literal)) => finished.push(vec![vec![literal]]),
+            // Negated expressions and constants can't be expressed in AQL
+            Step::Visit(Expr::Not(_) | Expr::Const(_)) => finished.push(vec![]),
+            Step::And => {
+                let rhs = finished.pop().unwrap_or_default();
+                let mut lhs = finished.pop().unwrap_or_default();
+                if let ([lhs], 1) = (lhs.as_mut_slice(), rhs.len()) {
+                    lhs.extend(rhs.into_iter().flatten());
+                } else {
+                    lhs = lhs
+                        .iter()
+                        .flat_map(|l| rhs.iter().map(|r| [l.as_slice(), r.as_slice()].concat()))
+                        .collect();
+                }
+                finished.push(lhs);
+            }
+            Step::Or => {
+                let rhs = finished.pop().unwrap_or_default();
+                let mut lhs = finished.pop().unwrap_or_default();
+                lhs.extend(rhs);
+                finished.push(lhs);
+            }
+        }
+    }
+    finished.pop().unwrap_or_default()
+}
+
 /// Parses an AQL query from a string.
 ///
 /// # Arguments
@@ -485,8 +554,11 @@ pub fn parse(query_as_aql: &str, quirks_mode: bool) -> Result<Disjunction> {
             let offsets = get_line_offsets(query_as_aql);
 
             // make sure AST is in DNF
-            let ast: ast::Expr = ast.simplify_via_laws();
-            let ast = get_alternatives_from_dnf(ast);
+            let ast = if is_deeper_than(&ast, MAX_RECURSION_DEPTH) {
+                get_alternatives_of_deep_expr(ast)
+            } else {
+                get_alternatives_from_dnf(ast.simplify_via_laws())
+            };
 
             let mut legacy_meta_search: Vec<(NodeSearchSpec, ast::Pos)> = Vec::new();
             if quirks_mode {
@@ -630,7 +702,7 @@ fn extract_location<'a>(
         }),
         ParseError::ExtraToken { token } => {
             let start = get_line_and_column_for_pos(token.0, &offsets);
-            let end = get_line_and_column_for_pos(token.2 - 1, &offsets);
+            let end = get_line_and_column_for_pos(token.2.saturating_sub(1), &offsets);
             Some(LineColumnRange {
                 start,
                 end: Some(end),
@@ -638,7 +710,7 @@ fn extract_location<'a>(
         }
         ParseError::UnrecognizedToken { token, .. } => {
             let start = get_line_and_column_for_pos(token.0, &offsets);
-            let end = get_line_and_column_for_pos(token.2 - 1, &offsets);
+            let end = get_line_and_column_for_pos(token.2.saturating_sub(1), &offsets);
             Some(LineColumnRange {
                 start,
                 end: Some(end),
@@ -646,7 +718,7 @@ fn extract_location<'a>(
         }
         ParseError::UnrecognizedEof { .. } => {
             // set to end of query
-            let start = get_line_and_column_for_pos(input.len() - 1, &offsets);
+            let start = get_line_and_column_for_pos(input.len().saturating_sub(1), &offsets);
             Some(LineColumnRange { start, end: None })
         }
         ParseError::User { .. } => None,
diff --git a/graphannis/src/annis/db/aql/parser.lalrpop b/graphannis/src/annis/db/aql/parser.lalrpop
index dda68d1..307db0e 100644
--- a/graphannis/src/annis/db/aql/parser.lalrpop
+++ b/graphannis/src/annis/db/aql/parser.lalrpop
@@ -312,7 +312,9 @@ NodeSearch : NodeSearchSpec = {
 /// Node references like `#1` (using the index of the node) or `#abc`
 /// (using explicit name for variable)
 NodeRef : ast::NodeRef = {
-    <v:NODE_REF> => ast::NodeRef::ID(v[1..].parse::<usize>().unwrap()),
+    // a number that is too large can't be the index of a node and is handled like an unknown name
+    <v:NODE_REF> => v[1..].parse::<usize>().map(ast::NodeRef::ID)
+        .unwrap_or_else(|_| ast::NodeRef::Name(v[1..].to_string())),
     <v:VARIABLE_NODE_REF> => ast::NodeRef::Name(v[1..].to_string()),
 }
 
@@ -514,12 +516,12 @@ EdgeAnno: EdgeAnnoSearchSpec = {
 
 RangeSpec: ast::RangeSpec = {
     (",")? <min:DIGITS> "," <max:DIGITS> => ast::RangeSpec::Bound {
-        min_dist: min.parse().unwrap_or_default(), 
-        max_dist: max.parse().unwrap_or_default(),
+        min_dist: min.parse().unwrap_or(usize::MAX), 
+        max_dist: max.parse().unwrap_or(usize::MAX),
     },
     (",")? <exact:DIGITS> => ast::RangeSpec::Bound {
-        min_dist: exact.parse().unwrap_or_default(), 
-        max_dist: exact.parse().unwrap_or_default(),
+        min_dist: exact.parse().unwrap_or(usize::MAX), 
+        max_dist: exact.parse().unwrap_or(usize::MAX),
     },
     "*" => ast::RangeSpec::Unbound,
     
-- 
2.43.0


From ab6efb6b796f48bb6c44890017414b12b1b1fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:25 +0000
Subject: [PATCH 42/51] fix: regular expressions with assertions or that never
 match were handled like exact values

---
 graphannis/src/annis/util/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/graphannis/src/annis/util/mod.rs b/graphannis/src/annis/util/mod.rs
index dac24db..4006351 100644
--- a/graphannis/src/annis/util/mod.rs
+++ b/graphannis/src/annis/util/mod.rs
@@ -15,15 +15,18 @@ use std::{
 /// Otherwise return `None`.
 pub(crate) fn exact_value_for_regex(pattern: &str) -> Option<String> {
     let parsed = regex_syntax::Parser::new().parse(pattern).ok()?;
-    if let Some(matching_literals) = Extractor::new().extract(&parsed).literals() {
-        if matching_literals.is_empty() {
-            return Some("".into());
-        } else if matching_literals.len() == 1 && matching_literals[0].is_exact() {
-            let matching_value = std::str::from_utf8(matching_literals[0].as_bytes()).ok()?;
-            return Some(matching_value.to_string());
+    // The literals ignore all assertions like "$" or "\b", but these can prevent a match
+    if !parsed.properties().look_set().is_empty() {
+        return None;
+    }
+    match Extractor::new().extract(&parsed).literals()? {
+        [literal] if literal.is_exact() => {
+            let matching_value = std::str::from_utf8(literal.as_bytes()).ok()?;
+            Some(matching_value.to_string())
         }
+        // Patterns without any literal never match
+        _ => None,
     }
-    None
 }
 
 /// Creates a byte array key from a vector of strings.
-- 
2.43.0


From b348d62b0aafe72826a3bf5eaba4efb31ce129f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:40 +0000
Subject: [PATCH 43/51] fix: subgraphs with a huge context never returned and
 gap edges depended on the order of the node IDs

---
 graphannis/src/annis/db/corpusstorage.rs      |  11 +-
 .../src/annis/db/corpusstorage/subgraph.rs    | 173 +++++++++++-------
 2 files changed, 114 insertions(+), 70 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index db8d09b..2bbf53a 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2103,7 +2103,7 @@ impl CorpusStorage {
 
         let it = new_subgraph_iterator(graph, node_ids, ctx_left, ctx_right, segmentation)?;
 
-        let result = subgraph::create_subgraph_for_iterator(it, &[0], graph, None)?;
+        let result = subgraph::create_subgraph_for_iterator(it, &[0], graph, None, true)?;
         Ok(result)
     }
 
@@ -2744,8 +2744,13 @@ fn extract_subgraph_by_query(
 
     debug!("executing subgraph query\n{}", plan);
 
-    let result =
-        subgraph::create_subgraph_for_iterator(plan, match_idx, orig_db, component_type_filter)?;
+    let result = subgraph::create_subgraph_for_iterator(
+        plan,
+        match_idx,
+        orig_db,
+        component_type_filter,
+        false,
+    )?;
 
     let load_time = t_before.elapsed();
     if let Ok(t) = load_time {
diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index a9e2d30..d8a9b87 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -85,6 +85,48 @@ impl Iterator for TokenIterator<'_> {
     }
 }
 
+/// Get the node which is at most `ctx` steps before the given node.
+fn extend_context_left(
+    ordering_edges: &dyn GraphStorage,
+    node: NodeID,
+    ctx: usize,
+) -> Result<NodeID> {
+    // The context can't be larger than the number of preceding nodes
+    let max_ctx = ordering_edges
+        .find_connected_inverse(node, 1, std::ops::Bound::Included(ctx))
+        .count();
+    for ctx in (0..=max_ctx).rev() {
+        if let Some(result) = ordering_edges
+            .find_connected_inverse(node, ctx, std::ops::Bound::Included(ctx))
+            .next()
+        {
+            return Ok(result?);
+        }
+    }
+    Ok(node)
+}
+
+/// Get the node which is at most `ctx` steps after the given node.
+fn extend_context_right(
+    ordering_edges: &dyn GraphStorage,
+    node: NodeID,
+    ctx: usize,
+) -> Result<NodeID> {
+    // The context can't be larger than the number of following nodes
+    let max_ctx = ordering_edges
+        .find_connected(node, 1, std::ops::Bound::Included(ctx))
+        .count();
+    for ctx in (0..=max_ctx).rev() {
+        if let Some(result) = ordering_edges
+            .find_connected(node, ctx, std::ops::Bound::Included(ctx))
+            .next()
+        {
+            return Ok(result?);
+        }
+    }
+    Ok(node)
+}
+
 fn get_left_right_token_with_offset_with_token(
     ordering_edges: &dyn GraphStorage,
     ordered_covered_token: &[NodeID],
@@ -101,30 +143,9 @@ fn get_left_right_token_with_offset_with_token(
 
     // The context might be larger than the actual document, try to get the
     // largest possible context
-    let mut left_with_context = left_most_covered_token;
-    for ctx in (0..=ctx_left).rev() {
-        if let Some(result) = ordering_edges
-            .find_connected_inverse(left_most_covered_token, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            left_with_context = result?;
-            break;
-        }
-    }
-    let mut right_with_context = right_most_covered_token;
-    for ctx in (0..=ctx_right).rev() {
-        if let Some(result) = ordering_edges
-            .find_connected(
-                right_most_covered_token,
-                ctx,
-                std::ops::Bound::Included(ctx),
-            )
-            .next()
-        {
-            right_with_context = result?;
-            break;
-        }
-    }
+    let left_with_context = extend_context_left(ordering_edges, left_most_covered_token, ctx_left)?;
+    let right_with_context =
+        extend_context_right(ordering_edges, right_most_covered_token, ctx_right)?;
     Ok((left_with_context, right_with_context))
 }
 
@@ -192,26 +213,8 @@ fn get_left_right_token_with_offset_with_segmentation(
 
     // The context might be larger than the actual document, try to get the
     // largest possible context
-    let mut left_with_context = left_seg;
-    for ctx in (0..=ctx_left).rev() {
-        if let Some(result) = gs_ordering
-            .find_connected_inverse(left_seg, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            left_with_context = result?;
-            break;
-        }
-    }
-    let mut right_with_context = right_seg;
-    for ctx in (0..=ctx_right).rev() {
-        if let Some(result) = gs_ordering
-            .find_connected(right_seg, ctx, std::ops::Bound::Included(ctx))
-            .next()
-        {
-            right_with_context = result?;
-            break;
-        }
-    }
+    let left_with_context = extend_context_left(gs_ordering, left_seg, ctx_left)?;
+    let right_with_context = extend_context_right(gs_ordering, right_seg, ctx_right)?;
     let left_token = token_helper
         .left_token_for(left_with_context)?
         .unwrap_or(left_most_covered_token);
@@ -315,6 +318,12 @@ impl<'a> TokenRegion<'a> {
     }
 }
 
+/// Return true if the first node precedes the second one.
+fn is_before(ordering_edges: &dyn GraphStorage, a: NodeID, b: NodeID) -> Result<bool> {
+    let result = ordering_edges.is_connected(a, b, 1, std::ops::Bound::Unbounded)?;
+    Ok(result)
+}
+
 /// Creates an iterator over all overlapped nodes of the match with gaps.
 fn new_overlapped_nodes_iterator<'a>(
     graph: &'a Graph<AnnotationComponentType>,
@@ -349,33 +358,52 @@ fn new_overlapped_nodes_iterator<'a>(
     let gs_ordering = graph.get_graphstorage(&component_ordering).ok_or(
         GraphAnnisCoreError::MissingComponent(component_ordering.to_string()),
     )?;
+    // Group the regions by the text they belong to. The order of the texts is
+    // not defined, but there must be only one of it.
+    let mut texts: Vec<Vec<TokenRegion<'a>>> = Vec::default();
+    for r in regions {
+        let mut text_of_region = None;
+        for (i, text) in texts.iter().enumerate() {
+            if let Some(other) = text.first()
+                && (is_before(gs_ordering.as_ref(), r.start_token, other.start_token)?
+                    || is_before(gs_ordering.as_ref(), other.start_token, r.start_token)?
+                    || r.start_token == other.start_token)
+            {
+                text_of_region = Some(i);
+                break;
+            }
+        }
+        match text_of_region {
+            Some(i) => texts[i].push(r),
+            None => texts.push(vec![r]),
+        }
+    }
+
     // Sort regions by position in the text, so the iterator of nodes
     // keeps the order of the nodes as given by the text.
-    quicksort::sort(&mut regions, move |a, b| {
-        if a.start_token == b.start_token && a.end_token == b.end_token {
-            Ok(Ordering::Equal)
-        } else if gs_ordering.is_connected(
-            a.end_token,
-            b.start_token,
-            1,
-            std::ops::Bound::Unbounded,
-        )? {
-            Ok(Ordering::Less)
-        } else if gs_ordering.is_connected(
-            b.end_token,
-            a.start_token,
-            1,
-            std::ops::Bound::Unbounded,
-        )? {
-            Ok(Ordering::Greater)
-        } else {
-            Ok((a.start_token, a.end_token).cmp(&(b.start_token, b.end_token)))
-        }
-    })?;
+    for text in &mut texts {
+        let gs_ordering = gs_ordering.as_ref();
+        quicksort::sort(text, move |a, b| {
+            let (a, b) = if a.start_token == b.start_token {
+                (a.end_token, b.end_token)
+            } else {
+                (a.start_token, b.start_token)
+            };
+            if a == b {
+                Ok(Ordering::Equal)
+            } else if is_before(gs_ordering, a, b)? {
+                Ok(Ordering::Less)
+            } else if is_before(gs_ordering, b, a)? {
+                Ok(Ordering::Greater)
+            } else {
+                Ok(a.cmp(&b))
+            }
+        })?;
+    }
 
     // Create and chain all iterators of the vector
     let mut iterators = Vec::new();
-    for token_region in regions.into_iter() {
+    for token_region in texts.into_iter().flatten() {
         iterators.push(token_region.into_token_iterator_with_coverage()?);
     }
     let result = iterators.into_iter().flatten();
@@ -458,11 +486,18 @@ pub fn new_subgraph_iterator<'a>(
     Ok(Box::new(result))
 }
 
+/// Create a copy of the part of the graph which contains the nodes given by the
+/// iterator.
+///
+/// If `mark_gaps` is true, the token in the iterator must be ordered by their
+/// position in the text. Edges in the `Ordering/annis/datasource-gap` component
+/// will be added between the token before and after a gap.
 pub fn create_subgraph_for_iterator<I>(
     it: I,
     match_idx: &[usize],
     orig_graph: &Graph<AnnotationComponentType>,
     component_type_filter: Option<AnnotationComponentType>,
+    mark_gaps: bool,
 ) -> Result<AnnotationGraph>
 where
     I: Iterator<Item = Result<MatchGroup>>,
@@ -483,7 +518,11 @@ where
         ANNIS_NS.into(),
         "datasource-gap".into(),
     );
-    let token_helper = TokenHelper::new(orig_graph).ok();
+    let token_helper = if mark_gaps {
+        Some(TokenHelper::new(orig_graph)?)
+    } else {
+        None
+    };
 
     let mut previous_token = None;
 
-- 
2.43.0


From 5a38eab6e4ccb47ef7ba5697fdcedb60dbade26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:17 +0000
Subject: [PATCH 44/51] fix: subgraph with segmentation lost covered token
 outside of the segmentation

---
 graphannis/src/annis/db/corpusstorage/subgraph.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage/subgraph.rs b/graphannis/src/annis/db/corpusstorage/subgraph.rs
index d8a9b87..322a811 100644
--- a/graphannis/src/annis/db/corpusstorage/subgraph.rs
+++ b/graphannis/src/annis/db/corpusstorage/subgraph.rs
@@ -152,6 +152,7 @@ fn get_left_right_token_with_offset_with_token(
 fn get_left_right_token_with_offset_with_segmentation(
     graph: &Graph<AnnotationComponentType>,
     token_helper: &TokenHelper,
+    ordering_edges: &dyn GraphStorage,
     ordered_covered_token: &[NodeID],
     ctx_left: usize,
     ctx_right: usize,
@@ -215,12 +216,21 @@ fn get_left_right_token_with_offset_with_segmentation(
     // largest possible context
     let left_with_context = extend_context_left(gs_ordering, left_seg, ctx_left)?;
     let right_with_context = extend_context_right(gs_ordering, right_seg, ctx_right)?;
-    let left_token = token_helper
+    let mut left_token = token_helper
         .left_token_for(left_with_context)?
         .unwrap_or(left_most_covered_token);
-    let right_token = token_helper
+    let mut right_token = token_helper
         .right_token_for(right_with_context)?
         .unwrap_or(right_most_covered_token);
+
+    // The segmentation might not cover all token of the match, but these token
+    // must be part of the result.
+    if is_before(ordering_edges, left_most_covered_token, left_token)? {
+        left_token = left_most_covered_token;
+    }
+    if is_before(ordering_edges, right_token, right_most_covered_token)? {
+        right_token = right_most_covered_token;
+    }
     Ok((left_token, right_token))
 }
 
@@ -283,6 +293,7 @@ impl<'a> TokenRegion<'a> {
             get_left_right_token_with_offset_with_segmentation(
                 graph,
                 &token_helper,
+                ordering_edges.as_ref(),
                 &covered_token,
                 ctx_left,
                 ctx_right,
-- 
2.43.0


From def4c0c063a051f1500391674cf42ac6ec4ae870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:12 +0000
Subject: [PATCH 45/51] Guarded hook: scheduler for locks and threads of the
 corpus storage

---
 core/src/graph/mod.rs                    |   9 +-
 core/src/mc.rs                           | 220 +++++++++++++++++++++++
 graphannis/src/annis/db/corpusstorage.rs |   8 +
 3 files changed, 233 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 548ca73..3a1937b 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -2,6 +2,8 @@ pub mod serialization;
 pub mod storage;
 pub mod update;
 
+#[cfg(graphannis_mc)]
+use crate::mc::sync::Mutex;
 use crate::{
     annostorage::{AnnotationStorage, NodeAnnotationStorage, ValueSearch},
     errors::Result,
@@ -17,10 +19,9 @@ use rayon::prelude::*;
 use std::ops::Bound::Included;
 use std::path::{Path, PathBuf};
 use std::string::ToString;
-use std::{
-    borrow::Cow,
-    sync::{Arc, Mutex},
-};
+#[cfg(not(graphannis_mc))]
+use std::sync::Mutex;
+use std::{borrow::Cow, sync::Arc};
 use std::{collections::BTreeMap, num::NonZeroUsize};
 use std::{collections::BTreeSet, io::prelude::*};
 use update::{GraphUpdate, UpdateEvent};
diff --git a/core/src/mc.rs b/core/src/mc.rs
index d8823d7..1a05408 100644
--- a/core/src/mc.rs
+++ b/core/src/mc.rs
@@ -13,3 +13,223 @@ pub fn set_eviction_limit(limit: Option<usize>) {
 pub fn eviction_limit() -> Option<usize> {
     EVICTION_LIMIT.with(|l| l.get())
 }
+
+/// Scheduler which decides about the order of all operations of its threads on locks.
+pub trait Scheduler: Send + Sync {
+    /// The thread is allowed to continue and owns the lock.
+    fn acquire(&self, thread: usize, lock: usize, exclusive: bool);
+    fn release(&self, thread: usize, lock: usize, exclusive: bool);
+    /// Gives the mutex away until notified and owns it again afterwards.
+    fn wait(&self, thread: usize, condvar: usize, mutex: usize);
+    fn notify_all(&self, thread: usize, condvar: usize);
+    /// Registers a new thread and returns its number.
+    fn spawn(&self, thread: usize) -> usize;
+    fn start(&self, thread: usize);
+    fn finish(&self, thread: usize);
+    /// Called before an operation on the file system.
+    fn file_system(&self, thread: usize);
+}
+
+type Controlled = (std::sync::Arc<dyn Scheduler>, usize);
+
+thread_local! {
+    static SCHEDULER: std::cell::RefCell<Option<Controlled>> = const { std::cell::RefCell::new(None) };
+}
+
+/// Let a scheduler control the current thread.
+pub fn set_scheduler(scheduler: Option<Controlled>) {
+    SCHEDULER.with(|s| *s.borrow_mut() = scheduler);
+}
+
+pub fn scheduler() -> Option<Controlled> {
+    SCHEDULER.try_with(|s| s.borrow().clone()).ok().flatten()
+}
+
+/// Replacements for the types with the same name in [`std::sync`].
+pub mod sync {
+    use super::{Controlled, scheduler};
+    pub use std::sync::Arc;
+    use std::sync::{LockResult, PoisonError};
+
+    /// Tells the scheduler about the end of a lock after its guard has been dropped
+    struct Release(Option<Controlled>, usize, bool);
+
+    impl Drop for Release {
+        fn drop(&mut self) {
+            if let Some((s, t)) = &self.0 {
+                s.release(*t, self.1, self.2);
+            }
+        }
+    }
+
+    fn acquire(lock: usize, exclusive: bool) -> Release {
+        let s = scheduler();
+        if let Some((s, t)) = &s {
+            s.acquire(*t, lock, exclusive);
+        }
+        Release(s, lock, exclusive)
+    }
+
+    macro_rules! guard {
+        ($name:ident) => {
+            pub struct $name<'a, T>(std::sync::$name<'a, T>, #[allow(dead_code)] Release);
+            impl<T> std::ops::Deref for $name<'_, T> {
+                type Target = T;
+                fn deref(&self) -> &T {
+                    &self.0
+                }
+            }
+        };
+    }
+    macro_rules! guard_mut {
+        ($name:ident) => {
+            guard!($name);
+            impl<T> std::ops::DerefMut for $name<'_, T> {
+                fn deref_mut(&mut self) -> &mut T {
+                    &mut self.0
+                }
+            }
+        };
+    }
+    guard!(RwLockReadGuard);
+    guard_mut!(RwLockWriteGuard);
+
+    pub struct MutexGuard<'a, T> {
+        // dropped before the release
+        guard: Option<std::sync::MutexGuard<'a, T>>,
+        mutex: &'a Mutex<T>,
+        release: Release,
+    }
+    impl<T> std::ops::Deref for MutexGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            self.guard.as_ref().expect("locked")
+        }
+    }
+    impl<T> std::ops::DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().expect("locked")
+        }
+    }
+
+    macro_rules! lock {
+        ($fun:ident, $guard:ident, $exclusive:expr) => {
+            pub fn $fun(&self) -> LockResult<$guard<'_, T>> {
+                let r = acquire(self as *const Self as *const u8 as usize, $exclusive);
+                match self.0.$fun() {
+                    Ok(g) => Ok($guard(g, r)),
+                    Err(e) => Err(PoisonError::new($guard(e.into_inner(), r))),
+                }
+            }
+        };
+    }
+
+    pub struct RwLock<T>(std::sync::RwLock<T>);
+    impl<T> RwLock<T> {
+        pub fn new(value: T) -> Self {
+            RwLock(std::sync::RwLock::new(value))
+        }
+        lock!(read, RwLockReadGuard, false);
+        lock!(write, RwLockWriteGuard, true);
+    }
+
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+    impl<T> Mutex<T> {
+        pub fn new(value: T) -> Self {
+            Mutex(std::sync::Mutex::new(value))
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let release = acquire(self.address(), true);
+            self.guard(release)
+        }
+        fn address(&self) -> usize {
+            self as *const Self as *const u8 as usize
+        }
+        fn guard(&self, release: Release) -> LockResult<MutexGuard<'_, T>> {
+            match self.0.lock() {
+                Ok(g) => Ok(MutexGuard {
+                    guard: Some(g),
+                    mutex: self,
+                    release,
+                }),
+                Err(e) => Err(PoisonError::new(MutexGuard {
+                    guard: Some(e.into_inner()),
+                    mutex: self,
+                    release,
+                })),
+            }
+        }
+    }
+
+    pub struct Condvar(std::sync::Condvar);
+    impl Default for Condvar {
+        fn default() -> Self {
+            Condvar::new()
+        }
+    }
+    impl Condvar {
+        pub fn new() -> Self {
+            Condvar(std::sync::Condvar::new())
+        }
+        pub fn notify_all(&self) {
+            if let Some((s, t)) = scheduler() {
+                s.notify_all(t, self as *const Self as usize);
+            }
+            self.0.notify_all();
+        }
+        pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
+            let MutexGuard {
+                guard,
+                mutex,
+                release,
+            } = guard;
+            if let Some((s, t)) = &release.0 {
+                // wait in the scheduler instead of the condition variable
+                drop(guard);
+                s.wait(*t, self as *const Self as usize, mutex.address());
+                return mutex.guard(release);
+            }
+            match self.0.wait(guard.expect("locked")) {
+                Ok(g) => Ok(MutexGuard {
+                    guard: Some(g),
+                    mutex,
+                    release,
+                }),
+                Err(e) => Err(PoisonError::new(MutexGuard {
+                    guard: Some(e.into_inner()),
+                    mutex,
+                    release,
+                })),
+            }
+        }
+    }
+}
+
+/// Replacements for the functions with the same name in [`std::thread`].
+pub mod thread {
+    use super::{scheduler, set_scheduler};
+
+    pub fn spawn<F>(f: F) -> std::thread::JoinHandle<()>
+    where
+        F: FnOnce() + Send + 'static,
+    {
+        let child = scheduler().map(|(s, t)| {
+            let child = s.spawn(t);
+            (s, child)
+        });
+        std::thread::spawn(move || {
+            if let Some((s, t)) = child {
+                set_scheduler(Some((s.clone(), t)));
+                s.start(t);
+                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
+                set_scheduler(None);
+                s.finish(t);
+                if let Err(e) = r {
+                    std::panic::resume_unwind(e);
+                }
+            } else {
+                f()
+            }
+        })
+    }
+}
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 2bbf53a..d9785b9 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -45,11 +45,19 @@ use std::io::prelude::*;
 use std::mem::size_of;
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
+#[cfg(not(graphannis_mc))]
 use std::sync::{Arc, Condvar, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
+#[cfg(not(graphannis_mc))]
 use std::thread;
 use std::{borrow::Cow, time::Duration};
 use transient_btree_index::{BtreeConfig, BtreeIndex};
 
+#[cfg(graphannis_mc)]
+use graphannis_core::mc::{
+    sync::{Arc, Condvar, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard},
+    thread,
+};
+
 use rustc_hash::{FxHashMap, FxHashSet};
 
 use std::{
-- 
2.43.0


From 5c2bc53360d8ad806da93b8966fc389c4ed019e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 46/51] fix: the list of components did not include updates
 which were not written to the disk yet

---
 graphannis/src/annis/db/corpusstorage.rs | 66 +++++++++++++++++-------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index d9785b9..2561098 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2410,24 +2410,18 @@ impl CorpusStorage {
         ctype: Option<AnnotationComponentType>,
         name: Option<&str>,
     ) -> Result<Vec<Component<AnnotationComponentType>>> {
-        if let Ok(db_entry) = self.get_entry(corpus_name) {
-            // Lock the entry so no-one else can write to it
-            let _lock = db_entry.read()?;
-            // Get the components by listing the directories on the disk We
-            // could use `Graph:get_all_components() but this needs to load the
-            // annotation storage which can be costly.
-            let db_path = self.corpus_directory_on_disk(corpus_name);
-            let backup = db_path.join("backup");
-
-            let dir2load = if backup.exists() && backup.is_dir() {
-                backup.clone()
-            } else {
-                db_path.join("current")
-            };
-            let components = graphannis_core::graph::find_components_from_disk::<
-                AnnotationComponentType,
-                _,
-            >(&dir2load)?
+        let components = match self.list_components_from_disk(corpus_name)? {
+            Some(components) => components,
+            None => match self.get_loaded_entry(corpus_name, false, false) {
+                Ok(db_entry) => {
+                    let lock = db_entry.read()?;
+                    get_read_or_error(&lock)?.get_all_components(None, None)
+                }
+                Err(GraphAnnisError::NoSuchCorpus(_)) => vec![],
+                Err(e) => return Err(e),
+            },
+        };
+        let components = components
             .into_iter()
             .filter(|c| {
                 if let Some(ctype) = ctype.as_ref() {
@@ -2444,9 +2438,41 @@ impl CorpusStorage {
                 }
             })
             .collect();
-            return Ok(components);
+        Ok(components)
+    }
+
+    /// Get the components of a corpus which is not loaded by listing the directories on the disk.
+    /// We could use `Graph:get_all_components() but this needs to load the annotation storage which can be costly.
+    ///
+    /// Returns `None` if the files on the disk do not include all updates.
+    fn list_components_from_disk(
+        &self,
+        corpus_name: &str,
+    ) -> Result<Option<Vec<Component<AnnotationComponentType>>>> {
+        // Lock the cache so no-one else can load the corpus and write to it
+        let cache = self.corpus_cache.read()?;
+        if let Some(entry) = cache.get(corpus_name)
+            && matches!(*entry.read()?, CacheEntry::Loaded(_))
+        {
+            return Ok(None);
+        }
+
+        let db_path = self.corpus_directory_on_disk(corpus_name);
+        let backup = db_path.join("backup");
+
+        let dir2load = if backup.is_dir() {
+            backup
+        } else {
+            db_path.join("current")
+        };
+        if dir2load.join("update_log.bin").exists() {
+            return Ok(None);
         }
-        Ok(vec![])
+        let components = graphannis_core::graph::find_components_from_disk::<
+            AnnotationComponentType,
+            _,
+        >(&dir2load)?;
+        Ok(Some(components.into_iter().collect()))
     }
 
     /// Returns a list of all node annotations of a corpus given by `corpus_name`.
-- 
2.43.0


From 73deca839e6f3a29ca7e8367ab0ad2c64eaef473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:11 +0000
Subject: [PATCH 47/51] fix: corpora deleted, replaced, unloaded or loaded
 twice while in use lost updates, came back or returned errors

There must be at most one instance of a corpus which writes to its files: do not load a corpus twice, do not remove a corpus from the cache while another thread or the background writer uses it, and detach instances of deleted or replaced corpora from the disk. Requests for unknown corpora do not leave an entry in the cache, which made creating or importing the corpus fail.
---
 core/src/graph/mod.rs                    |  13 +++
 graphannis/src/annis/db/corpusstorage.rs | 112 +++++++++++++++++------
 2 files changed, 95 insertions(+), 30 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 3a1937b..66d514e 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -256,6 +256,19 @@ impl<CT: ComponentType> Graph<CT> {
         Ok(())
     }
 
+    /// The location on the disk to which updates are persisted.
+    pub fn location(&self) -> Option<&Path> {
+        self.location.as_deref()
+    }
+
+    /// Forget the location on the disk after loading all components from it.
+    /// Afterwards, nothing is read from or written to this location.
+    pub fn detach_from_location(&mut self) -> Result<()> {
+        let result = self.ensure_loaded_all();
+        self.location = None;
+        result
+    }
+
     /// Load the graph from an external location.
     /// This sets the location of this instance to the given location.
     ///
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 2561098..9e88b6e 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -492,6 +492,9 @@ impl CorpusStorage {
     }
 
     fn list_from_disk(&self) -> Result<Vec<String>> {
+        // Wait until corpora that are currently replaced or deleted are in their final state
+        let _cache = self.corpus_cache.read()?;
+
         let mut corpora: Vec<String> = Vec::new();
         let directories =
             self.db_dir
@@ -526,12 +529,13 @@ impl CorpusStorage {
         let corpus_config_path = self
             .corpus_directory_on_disk(corpus_name)
             .join("corpus-config.toml");
-        if corpus_config_path.is_file() {
-            let file_content = std::fs::read_to_string(corpus_config_path)?;
-            let config = toml::from_str(&file_content)?;
-            Ok(Some(config))
-        } else {
-            Ok(None)
+        match std::fs::read_to_string(corpus_config_path) {
+            Ok(file_content) => {
+                let config = toml::from_str(&file_content)?;
+                Ok(Some(config))
+            }
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+            Err(e) => Err(e.into()),
         }
     }
 
@@ -612,27 +616,16 @@ impl CorpusStorage {
         self.create_corpus_info(corpus_name)
     }
 
+    /// Get the cache entry for the corpus without loading it. If there is none, no entry is added to the cache
+    /// because the corpus might not exist.
     fn get_entry(&self, corpus_name: &str) -> Result<Arc<RwLock<CacheEntry>>> {
-        let corpus_name = corpus_name.to_string();
-
-        {
-            // test with read-only access if corpus is contained in cache
-            let cache_lock = self.corpus_cache.read()?;
-            let cache = &*cache_lock;
-            if let Some(e) = cache.get(&corpus_name) {
-                return Ok(e.clone());
-            }
-        }
-
-        // if not yet available, change to write-lock and insert cache entry
-        let mut cache_lock = self.corpus_cache.write()?;
-        let cache = &mut *cache_lock;
-
+        let cache = self.corpus_cache.read()?;
         let entry = cache
-            .entry(corpus_name)
-            .or_insert_with(|| Arc::new(RwLock::new(CacheEntry::NotLoaded)));
+            .get(corpus_name)
+            .cloned()
+            .unwrap_or_else(|| Arc::new(RwLock::new(CacheEntry::NotLoaded)));
 
-        Ok(entry.clone())
+        Ok(entry)
     }
 
     fn load_entry_with_lock(
@@ -677,13 +670,13 @@ impl CorpusStorage {
 
         let entry = Arc::new(RwLock::new(CacheEntry::Loaded(db)));
         // first remove entry, than add it: this ensures it is at the end of the linked hash map
-        let entry_existed = cache.remove(corpus_name).is_some();
+        cache.remove(corpus_name);
         cache.insert(String::from(corpus_name), entry.clone());
         info!("Loaded corpus {}", corpus_name,);
         // Cleanup cache if needed
         let removed =
             check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![corpus_name])?;
-        if !entry_existed || removed {
+        if create_corpus || removed {
             info!(
                 "Updated corpus cache: {}",
                 get_corpus_cache_info_as_string(cache, &self.cache_strategy)?
@@ -711,6 +704,12 @@ impl CorpusStorage {
             Ok(cache_entry)
         } else {
             let mut cache_lock = self.corpus_cache.write()?;
+            // another thread might have loaded the corpus in the meantime
+            if let Some(entry) = cache_lock.get(corpus_name)
+                && matches!(*entry.read()?, CacheEntry::Loaded(_))
+            {
+                return Ok(entry.clone());
+            }
             self.load_entry_with_lock(
                 &mut cache_lock,
                 corpus_name,
@@ -1008,10 +1007,15 @@ impl CorpusStorage {
 
             // if there is a cache entry, acquire an exclusive lock for it because
             // other queries or background writers might still have access to it and need to finish first
-            let _lock = old_entry
+            let mut lock = old_entry
                 .as_ref()
                 .map(|db_entry| db_entry.write())
                 .transpose()?;
+            if let (Some(lock), Some(entry)) = (&mut lock, &old_entry)
+                && is_in_use(entry)
+            {
+                detach_from_disk(lock);
+            }
 
             if db_path.is_dir()
                 && let Err(e) = std::fs::remove_dir_all(&db_path)
@@ -1379,10 +1383,15 @@ impl CorpusStorage {
 
         // if there is a cache entry, acquire an exclusive lock for it because
         // other queries or background writers might still have access to it and need to finish first
-        let _lock = db_entry
+        let mut lock = db_entry
             .as_ref()
             .map(|db_entry| db_entry.write())
             .transpose()?;
+        if let (Some(lock), Some(entry)) = (&mut lock, &db_entry)
+            && is_in_use(entry)
+        {
+            detach_from_disk(lock);
+        }
 
         if db_path.is_dir() {
             std::fs::remove_dir_all(db_path).map_err(|e| {
@@ -1516,10 +1525,31 @@ impl CorpusStorage {
     }
 
     /// Unloads a corpus from the cache.
+    ///
+    /// A corpus that is used by another thread is not unloaded.
     pub fn unload(&self, corpus_name: &str) -> Result<()> {
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
-        cache.remove(corpus_name);
+        // Wait until the updates are written to the disk. Otherwise, the corpus could be loaded a second time while
+        // the background thread still changes its files.
+        self.wait_for_background_workers()?;
+        if cache.get(corpus_name).is_some_and(|e| !is_in_use(e)) {
+            cache.remove(corpus_name);
+        }
+        Ok(())
+    }
+
+    /// Wait until all background workers are finished
+    fn wait_for_background_workers(&self) -> Result<()> {
+        let (lock, cvar) = &*self.active_background_workers;
+        let mut nr_active_background_workers = lock.lock()?;
+        while *nr_active_background_workers > 0 {
+            trace!(
+                "Waiting for background thread to finish ({} worker(s) left)...",
+                *nr_active_background_workers
+            );
+            nr_active_background_workers = cvar.wait(nr_active_background_workers)?;
+        }
         Ok(())
     }
 
@@ -1534,6 +1564,11 @@ impl CorpusStorage {
 
         graph.optimize_impl(disk_based)?;
 
+        if graph.location().is_none() {
+            // the corpus has been deleted in the meantime
+            return Ok(());
+        }
+
         // Re-calculate the corpus size if not set yet
         let mut config = self.get_corpus_config(corpus_name)?.unwrap_or_default();
         if self.update_corpus_size_info(&mut config, graph) {
@@ -2683,6 +2718,22 @@ fn get_max_cache_size(cache_strategy: &CacheStrategy, used_cache_size: usize) ->
     }
 }
 
+/// Returns if a thread different from the one that has locked the cache uses the entry. Such an entry must not just be
+/// removed from the cache, since there would be two instances of the same corpus after loading it again.
+fn is_in_use(entry: &Arc<RwLock<CacheEntry>>) -> bool {
+    Arc::strong_count(entry) > 1
+}
+
+/// Make sure that an entry of a corpus whose files are about to be removed does not access these files any longer.
+/// There can be other threads that are about to use this entry.
+fn detach_from_disk(lock: &mut RwLockWriteGuard<CacheEntry>) {
+    if let CacheEntry::Loaded(db) = &mut **lock
+        && let Err(e) = db.detach_from_location()
+    {
+        error!("Could not load all components of a removed corpus: {}", e);
+    }
+}
+
 fn check_cache_size_and_remove_with_cache(
     cache: &mut LinkedHashMap<String, Arc<RwLock<CacheEntry>>>,
     cache_strategy: &CacheStrategy,
@@ -2704,7 +2755,8 @@ fn check_cache_size_and_remove_with_cache(
             false
         };
         if size_sum > max_cache_size {
-            if corpus_is_loaded && !keep.contains(corpus_name.as_str()) {
+            let corpus_is_in_use = cache.get(&corpus_name).is_some_and(is_in_use);
+            if corpus_is_loaded && !corpus_is_in_use && !keep.contains(corpus_name.as_str()) {
                 cache.remove(&corpus_name);
                 // Re-measure the currently used memory size for this process
                 size_sum = memory_stats().map(|s| s.physical_mem).unwrap_or(usize::MAX);
-- 
2.43.0


From c3b4db21d0b6f51230a9573417d9493d16845751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 48/51] fix: GraphML export and import of special characters,
 nodes without type and partially loaded graphs

---
 core/src/graph/serialization/graphml.rs | 142 ++++++++++++++++--------
 1 file changed, 93 insertions(+), 49 deletions(-)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index d97a5ff..7175f0b 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -1,14 +1,15 @@
 use crate::{
-    annostorage::{Match, ValueSearch},
+    annostorage::ValueSearch,
     errors::{GraphAnnisCoreError, Result},
     graph::{
         ANNIS_NS, Graph, NODE_NAME, NODE_NAME_KEY, NODE_TYPE, NODE_TYPE_KEY,
         update::{GraphUpdate, UpdateEvent},
     },
-    types::{AnnoKey, Annotation, Component, ComponentType, Edge},
+    types::{AnnoKey, Annotation, Component, ComponentType, Edge, NodeID},
     util::{join_qname, split_qname},
 };
 use itertools::Itertools;
+use percent_encoding::{AsciiSet, percent_decode_str, utf8_percent_encode};
 use quick_xml::{
     Reader, Writer,
     events::{
@@ -22,6 +23,21 @@ use std::{
     str::FromStr,
 };
 
+fn compare_results<T: Ord>(a: &Result<T>, b: &Result<T>) -> Ordering {
+    if let (Ok(a), Ok(b)) = (a, b) {
+        a.cmp(b)
+    } else if a.is_err() {
+        Ordering::Less
+    } else if b.is_err() {
+        Ordering::Greater
+    } else {
+        // Treat two errors as equal
+        Ordering::Equal
+    }
+}
+
+const LAYER_ENCODE_SET: &AsciiSet = &AsciiSet::EMPTY.add(b'/').add(b'%');
+
 fn write_annotation_keys<CT: ComponentType, W: std::io::Write>(
     graph: &Graph<CT>,
     has_graph_configuration: bool,
@@ -78,9 +94,10 @@ fn write_annotation_keys<CT: ComponentType, W: std::io::Write>(
         all_components.sort_unstable();
     }
     for c in all_components {
-        if !autogenerated_components.contains(&c)
-            && let Some(gs) = graph.get_graphstorage(&c)
-        {
+        if !autogenerated_components.contains(&c) {
+            let gs = graph
+                .get_graphstorage(&c)
+                .ok_or_else(|| GraphAnnisCoreError::ComponentNotLoaded(c.to_string()))?;
             for key in gs.get_anno_storage().annotation_keys()? {
                 #[allow(clippy::map_entry)]
                 if !key_id_mapping.contains_key(&key) {
@@ -126,17 +143,33 @@ fn write_data<W: std::io::Write>(
     Ok(())
 }
 
-fn compare_results<T: Ord>(a: &Result<T>, b: &Result<T>) -> Ordering {
-    if let (Ok(a), Ok(b)) = (a, b) {
-        a.cmp(b)
-    } else if a.is_err() {
-        Ordering::Less
-    } else if b.is_err() {
-        Ordering::Greater
-    } else {
-        // Treat two errors as equal
-        Ordering::Equal
+/// Write the configuration as CDATA section. The end marker of a section can't be
+/// escaped, so each one is divided between two adjacent sections.
+fn write_configuration<W: std::io::Write>(config: &str, writer: &mut Writer<W>) -> Result<()> {
+    let mut remaining = config;
+    while let Some(pos) = remaining.find("]]>") {
+        let (section, next) = remaining.split_at(pos + 2);
+        writer.write_event(Event::CData(BytesCData::new(section)))?;
+        remaining = next;
     }
+    writer.write_event(Event::CData(BytesCData::new(remaining)))?;
+    Ok(())
+}
+
+/// Get the component as used in the "label" attribute of an edge. The parts are
+/// separated with slashes, which have to be escaped in all but the last one.
+fn component_to_label<CT: ComponentType>(c: &Component<CT>) -> String {
+    let layer = utf8_percent_encode(&c.layer, LAYER_ENCODE_SET);
+    format!("{:?}/{}/{}", c.get_type(), layer, c.name)
+}
+
+fn component_from_label<CT: ComponentType>(label: &str) -> Result<Component<CT>> {
+    let mut component = Component::<CT>::from_str(label)?;
+    let layer = percent_decode_str(&component.layer)
+        .decode_utf8_lossy()
+        .to_string();
+    component.layer = layer;
+    Ok(component)
 }
 
 fn write_nodes<CT: ComponentType, W: std::io::Write>(
@@ -145,27 +178,39 @@ fn write_nodes<CT: ComponentType, W: std::io::Write>(
     sorted: bool,
     key_id_mapping: &BTreeMap<AnnoKey, String>,
 ) -> Result<()> {
-    let base_node_iterator =
-        graph
-            .get_node_annos()
-            .exact_anno_search(Some(ANNIS_NS), NODE_TYPE, ValueSearch::Any);
-    let node_iterator: Box<dyn Iterator<Item = Result<Match>>> = if sorted {
-        let it = base_node_iterator.sorted_unstable_by(compare_results);
-        Box::new(it)
+    // All nodes have a name, but not necessarily a type
+    let node_annos = graph.get_node_annos();
+    let base_node_iterator = node_annos
+        .exact_anno_search(Some(ANNIS_NS), NODE_TYPE, ValueSearch::Any)
+        .chain(
+            node_annos
+                .exact_anno_search(Some(ANNIS_NS), NODE_NAME, ValueSearch::Any)
+                .filter_map_ok(
+                    |m| match node_annos.has_value_for_item(&m.node, &NODE_TYPE_KEY) {
+                        Ok(true) => None,
+                        Ok(false) => Some(Ok(m)),
+                        Err(e) => Some(Err(e)),
+                    },
+                )
+                .map(|m| m?),
+        )
+        .map_ok(|m| m.node);
+    let node_iterator: Box<dyn Iterator<Item = Result<NodeID>>> = if sorted {
+        Box::new(base_node_iterator.sorted_unstable_by(compare_results))
     } else {
         Box::new(base_node_iterator)
     };
 
-    for m in node_iterator {
-        let m = m?;
+    for node in node_iterator {
+        let node = node?;
         let mut node_start = BytesStart::new("node");
 
         if let Some(id) = graph
             .get_node_annos()
-            .get_value_for_item(&m.node, &NODE_NAME_KEY)?
+            .get_value_for_item(&node, &NODE_NAME_KEY)?
         {
             node_start.push_attribute(("id", id.as_ref()));
-            let mut node_annotations = graph.get_node_annos().get_annotations_for_item(&m.node)?;
+            let mut node_annotations = graph.get_node_annos().get_annotations_for_item(&node)?;
             if node_annotations.is_empty() {
                 // Write an empty XML element without child nodes
                 writer.write_event(Event::Empty(node_start))?;
@@ -211,9 +256,10 @@ fn write_edges<CT: ComponentType, W: std::io::Write>(
 
     for c in all_components {
         // Create edge annotation keys for all components, but skip auto-generated ones
-        if !autogenerated_components.contains(&c)
-            && let Some(gs) = graph.get_graphstorage(&c)
-        {
+        if !autogenerated_components.contains(&c) {
+            let gs = graph
+                .get_graphstorage(&c)
+                .ok_or_else(|| GraphAnnisCoreError::ComponentNotLoaded(c.to_string()))?;
             let source_nodes_iterator = if sorted {
                 Box::new(gs.source_nodes().sorted_unstable_by(compare_results))
             } else {
@@ -250,7 +296,7 @@ fn write_edges<CT: ComponentType, W: std::io::Write>(
                             edge_start.push_attribute(("source", source_id.as_ref()));
                             edge_start.push_attribute(("target", target_id.as_ref()));
                             // Use the "label" attribute as component type. This is consistent with how Neo4j interprets this non-standard attribute
-                            edge_start.push_attribute(("label", c.to_string().as_ref()));
+                            edge_start.push_attribute(("label", component_to_label(&c).as_str()));
 
                             writer.write_event(Event::Start(edge_start))?;
 
@@ -318,8 +364,7 @@ where
         // This is always the first key ID
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
-        // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_configuration(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -385,8 +430,7 @@ where
         // This is always the first key ID
         data_start.push_attribute(("key", "k0"));
         writer.write_event(Event::Start(data_start))?;
-        // Add the annotation value as internal text node
-        writer.write_event(Event::CData(BytesCData::new(config)))?;
+        write_configuration(config, &mut writer)?;
         writer.write_event(Event::End(BytesEnd::new("data")))?;
     }
 
@@ -415,7 +459,7 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
     for att in attributes {
         let att = att?;
 
-        let att_value = String::from_utf8_lossy(&att.value);
+        let att_value = att.unescape_value()?;
 
         match att.key.0 {
             b"id" => {
@@ -423,9 +467,12 @@ fn add_annotation_key(keys: &mut BTreeMap<String, AnnoKey>, attributes: Attribut
             }
             b"attr.name" => {
                 let (ns, name) = split_qname(att_value.as_ref());
+                // Both parts have been percent-encoded by join_qname()
                 anno_key = Some(AnnoKey {
-                    ns: ns.unwrap_or("").into(),
-                    name: name.into(),
+                    ns: percent_decode_str(ns.unwrap_or_default())
+                        .decode_utf8_lossy()
+                        .to_string(),
+                    name: percent_decode_str(name).decode_utf8_lossy().to_string(),
                 });
             }
             _ => {}
@@ -476,7 +523,7 @@ fn add_edge<CT: ComponentType>(
         (current_source_id, current_target_id, current_component)
     {
         // Insert graph update for this edge
-        if let Ok(component) = Component::<CT>::from_str(component) {
+        if let Ok(component) = component_from_label::<CT>(component) {
             edge_updates.add_event(UpdateEvent::AddEdge {
                 source_node: source.clone(),
                 target_node: target.clone(),
@@ -547,8 +594,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                         for att in e.attributes() {
                             let att = att?;
                             if att.key.0 == b"id" {
-                                current_node_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_node_id = Some(att.unescape_value()?.to_string());
                             }
                         }
                     }
@@ -559,14 +605,11 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                         for att in e.attributes() {
                             let att = att?;
                             if att.key.0 == b"source" {
-                                current_source_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_source_id = Some(att.unescape_value()?.to_string());
                             } else if att.key.0 == b"target" {
-                                current_target_id =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_target_id = Some(att.unescape_value()?.to_string());
                             } else if att.key.0 == b"label" {
-                                current_component =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_component = Some(att.unescape_value()?.to_string());
                             }
                         }
                     }
@@ -575,8 +618,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                         for att in e.attributes() {
                             let att = att?;
                             if att.key.0 == b"key" {
-                                current_data_key =
-                                    Some(String::from_utf8_lossy(&att.value).to_string());
+                                current_data_key = Some(att.unescape_value()?.to_string());
                             }
                         }
                     }
@@ -594,7 +636,9 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                     && current_data_key == "k0"
                 {
                     // This is the configuration content
-                    config = Some(String::from_utf8_lossy(&t).to_string());
+                    config
+                        .get_or_insert_with(String::new)
+                        .push_str(&String::from_utf8_lossy(&t));
                 }
             }
             Event::End(ref e) => {
-- 
2.43.0


From 092e5133d7153474b9f1154b807b4d960b8dd47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:28 +0000
Subject: [PATCH 49/51] fix: importing an incomplete GraphML file must not
 succeed

---
 core/src/graph/serialization/graphml.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/graph/serialization/graphml.rs b/core/src/graph/serialization/graphml.rs
index 7175f0b..5da976b 100644
--- a/core/src/graph/serialization/graphml.rs
+++ b/core/src/graph/serialization/graphml.rs
@@ -562,6 +562,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
     let mut keys = BTreeMap::new();
 
     let mut level = 0;
+    let mut has_root_element = false;
     let mut in_graph = false;
     let mut current_node_id: Option<String> = None;
     let mut current_data_key: Option<String> = None;
@@ -580,6 +581,7 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
         match reader.read_event_into(&mut buf)? {
             Event::Start(ref e) => {
                 level += 1;
+                has_root_element = true;
 
                 match e.name().0 {
                     b"graph" if level == 2 => {
@@ -700,6 +702,14 @@ fn read_graphml<CT: ComponentType, R: std::io::BufRead, F: Fn(&str)>(
                 level -= 1;
             }
             Event::Eof => {
+                if level > 0 || !has_root_element {
+                    // The file is not complete
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::UnexpectedEof,
+                        "unexpected end of GraphML file",
+                    )
+                    .into());
+                }
                 break;
             }
             _ => {}
-- 
2.43.0


From d55b8c84fd85c9807f1fea90c77b698a8cda179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:28 +0000
Subject: [PATCH 50/51] fix: failed imports, exports, creations and deletions
 leave existing corpora and files unchanged, all corpus and node names can be
 used for files

---
 graphannis/src/annis/db/corpusstorage.rs      | 317 +++++++++++-------
 .../src/annis/db/corpusstorage/filenames.rs   |  86 +++++
 2 files changed, 286 insertions(+), 117 deletions(-)
 create mode 100644 graphannis/src/annis/db/corpusstorage/filenames.rs

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 9e88b6e..d34af73 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -35,7 +35,7 @@ use graphannis_core::{
 use itertools::Itertools;
 use linked_hash_map::LinkedHashMap;
 use memory_stats::memory_stats;
-use percent_encoding::{AsciiSet, CONTROLS, percent_decode_str, utf8_percent_encode};
+use percent_encoding::{AsciiSet, CONTROLS, utf8_percent_encode};
 use rand::prelude::*;
 use std::collections::HashSet;
 use std::fmt;
@@ -72,6 +72,7 @@ use self::subgraph::new_subgraph_iterator;
 use super::aql::model::AQLGlobalStatistics;
 use super::sort_matches::SortCache;
 
+mod filenames;
 mod subgraph;
 
 #[cfg(test)]
@@ -444,6 +445,7 @@ impl CorpusStorage {
             query_config,
             active_background_workers,
         };
+        cs.recover_interrupted_changes();
 
         Ok(cs)
     }
@@ -474,10 +476,52 @@ impl CorpusStorage {
             query_config,
             active_background_workers,
         };
+        cs.recover_interrupted_changes();
 
         Ok(cs)
     }
 
+    /// Directory for intermediate results.
+    fn tmp_dir(&self) -> PathBuf {
+        self.db_dir.join(filenames::TMP_DIR_NAME)
+    }
+
+    /// Path to which the existing files of a corpus are moved to before they are replaced.
+    fn replaced_corpus_directory(&self, corpus_name: &str) -> PathBuf {
+        self.tmp_dir()
+            .join("replaced")
+            .join(filenames::corpus_directory_name(corpus_name))
+    }
+
+    /// If replacing a corpus has been interrupted, restore the replaced one and remove all intermediate results.
+    fn recover_interrupted_changes(&self) {
+        if let Ok(replaced_corpora) = self.tmp_dir().join("replaced").read_dir() {
+            for replaced in replaced_corpora.flatten() {
+                let db_path = self.db_dir.join(replaced.file_name());
+                if !db_path.exists()
+                    && let Err(e) = std::fs::rename(replaced.path(), &db_path)
+                {
+                    error!(
+                        "Could not restore corpus in {}: {}",
+                        db_path.to_string_lossy(),
+                        e
+                    );
+                    return;
+                }
+            }
+        }
+        let tmp_dir = self.tmp_dir();
+        if tmp_dir.is_dir()
+            && let Err(e) = std::fs::remove_dir_all(&tmp_dir)
+        {
+            warn!(
+                "Could not remove temporary directory {}: {}",
+                tmp_dir.to_string_lossy(),
+                e
+            );
+        }
+    }
+
     /// List  all available corpora in the corpus storage.
     pub fn list(&self) -> Result<Vec<CorpusInfo>> {
         let names: Vec<String> = self.list_from_disk().unwrap_or_default();
@@ -515,11 +559,11 @@ impl CorpusStorage {
                     path: self.db_dir.to_string_lossy().to_string(),
                 })?;
             if ftype.is_dir() {
-                let directory_name = c_dir.file_name();
-                let corpus_name = directory_name.to_string_lossy();
                 // Use the decoded corpus name instead of the directory name
-                let corpus_name = percent_decode_str(&corpus_name);
-                corpora.push(corpus_name.decode_utf8_lossy().to_string());
+                let directory_name = c_dir.file_name();
+                corpora.extend(filenames::corpus_name_from_directory_name(
+                    &directory_name.to_string_lossy(),
+                ));
             }
         }
         Ok(corpora)
@@ -651,22 +695,25 @@ impl CorpusStorage {
         // make sure the cache is not too large before adding the new corpus
         check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![corpus_name])?;
 
-        let db = if create_corpus {
+        if create_corpus {
             // create the default graph storages that are assumed to exist in every corpus
             let mut db = AnnotationGraph::with_default_graphstorages(create_disk_based)?;
 
-            // save corpus to the path where it should be stored
-            db.persist_to(&db_path)
-                .map_err(|e| CorpusStorageError::CreateCorpus {
-                    corpus: corpus_name.to_string(),
-                    source: e,
-                })?;
-            db
-        } else {
-            let mut db = AnnotationGraph::new(false)?;
-            db.open(&db_path)?;
-            db
-        };
+            // save corpus to a temporary location first, so there is never an incomplete corpus
+            self.recover_interrupted_changes();
+            let new_corpus_dir = self.tmp_dir().join("created");
+            let result = db
+                .save_to(&new_corpus_dir)
+                .and_then(|_| Ok(std::fs::rename(&new_corpus_dir, &db_path)?));
+            self.recover_interrupted_changes();
+            result.map_err(|e| CorpusStorageError::CreateCorpus {
+                corpus: corpus_name.to_string(),
+                source: e,
+            })?;
+        }
+
+        let mut db = AnnotationGraph::new(false)?;
+        db.open(&db_path)?;
 
         let entry = Arc::new(RwLock::new(CacheEntry::Loaded(db)));
         // first remove entry, than add it: this ensures it is at the end of the linked hash map
@@ -956,7 +1003,7 @@ impl CorpusStorage {
             })?,
             ImportFormat::GraphML => {
                 let orig_corpus_name = if let Some(file_name) = path.file_stem() {
-                    file_name.to_string_lossy().to_string()
+                    filenames::corpus_name_from_exported_name(&file_name.to_string_lossy())
                 } else {
                     "UnknownCorpus".to_string()
                 };
@@ -982,13 +1029,7 @@ impl CorpusStorage {
             }
         };
 
-        let r = graph.ensure_loaded_all();
-        if let Err(e) = r {
-            error!(
-                "Some error occurred when attempting to load components from disk: {:?}",
-                e
-            );
-        }
+        graph.ensure_loaded_all()?;
 
         self.update_corpus_size_info(&mut config, &graph);
 
@@ -1001,81 +1042,103 @@ impl CorpusStorage {
         // make sure the cache is not too large before adding the new corpus
         check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![])?;
 
-        // remove any possible old corpus
-        if overwrite_existing {
-            let old_entry = cache.remove(&corpus_name);
-
-            // if there is a cache entry, acquire an exclusive lock for it because
-            // other queries or background writers might still have access to it and need to finish first
-            let mut lock = old_entry
-                .as_ref()
-                .map(|db_entry| db_entry.write())
-                .transpose()?;
-            if let (Some(lock), Some(entry)) = (&mut lock, &old_entry)
-                && is_in_use(entry)
-            {
-                detach_from_disk(lock);
-            }
-
-            if db_path.is_dir()
-                && let Err(e) = std::fs::remove_dir_all(&db_path)
-            {
-                error!("Error when removing existing files {}", e);
-            }
-        } else if cache.contains_key(&corpus_name) || db_path.is_dir() {
+        if !overwrite_existing && (cache.contains_key(&corpus_name) || db_path.is_dir()) {
             return Err(GraphAnnisError::CorpusExists(corpus_name.to_string()));
         }
 
-        if let Err(e) = std::fs::create_dir_all(&db_path) {
-            error!(
-                "Can't create directory {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        // Write the new corpus to a temporary location first, so nothing is changed if this fails
+        self.recover_interrupted_changes();
+        let new_corpus_dir = self.tmp_dir().join("imported");
+        let result = self
+            .write_imported_corpus(&corpus_name, path, &new_corpus_dir, &mut graph, &config)
+            .and_then(|_| self.replace_corpus(cache, &corpus_name, &new_corpus_dir));
+        self.recover_interrupted_changes();
+        result?;
 
+        // make it known to the cache
+        cache.insert(
+            corpus_name.clone(),
+            Arc::new(RwLock::new(CacheEntry::NotLoaded)),
+        );
+        check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![&corpus_name])?;
+        info!(
+            "Corpus cache after importing {corpus_name}: {}",
+            get_corpus_cache_info_as_string(cache, &self.cache_strategy)?
+        );
+
+        Ok(corpus_name)
+    }
+
+    /// Write all files of an imported corpus to the directory `corpus_dir`.
+    fn write_imported_corpus(
+        &self,
+        corpus_name: &str,
+        import_path: &Path,
+        corpus_dir: &Path,
+        graph: &mut AnnotationGraph,
+        config: &CorpusConfiguration,
+    ) -> Result<()> {
         info!("Copying linked files for corpus {}", corpus_name);
         let current_dir = PathBuf::from(".");
-        let files_dir = db_path.join("files");
+        let files_dir = corpus_dir.join("files");
         std::fs::create_dir_all(&files_dir)?;
-        let old_base_path = path
+        let old_base_path = import_path
             .parent()
             .filter(|p| !p.as_os_str().is_empty())
             .unwrap_or(&current_dir);
-        self.copy_linked_files_and_update_references(old_base_path, &files_dir, &mut graph)?;
+        self.copy_linked_files_and_update_references(old_base_path, &files_dir, graph)?;
 
-        // save to its location
         info!("Saving corpus {} to disk", corpus_name);
-        let save_result = graph.save_to(&db_path);
-        if let Err(e) = save_result {
-            error!(
-                "Can't save corpus to {}: {:?}",
-                db_path.to_string_lossy(),
-                e
-            );
-        }
+        graph.save_to(corpus_dir)?;
 
         // Use the imported/generated/default corpus configuration and store it in our graph directory
-        let corpus_config_path = db_path.join("corpus-config.toml");
         info!(
-            "Saving corpus configuration file for corpus {} to {}",
-            corpus_name,
-            &corpus_config_path.to_string_lossy()
+            "Saving corpus configuration file for corpus {}",
+            corpus_name
         );
-        std::fs::write(corpus_config_path, toml::to_string(&config)?)?;
+        let corpus_config_path = corpus_dir.join("corpus-config.toml");
+        std::fs::write(corpus_config_path, toml::to_string(config)?)?;
 
-        // make it known to the cache
-        cache.insert(
-            corpus_name.clone(),
-            Arc::new(RwLock::new(CacheEntry::NotLoaded)),
-        );
-        check_cache_size_and_remove_with_cache(cache, &self.cache_strategy, vec![&corpus_name])?;
-        info!(
-            "Corpus cache after importing {corpus_name}: {}",
-            get_corpus_cache_info_as_string(cache, &self.cache_strategy)?
-        );
+        Ok(())
+    }
 
-        Ok(corpus_name)
+    /// Move the directory of a new corpus to its final location and remove any possible old corpus with the same name.
+    /// The old corpus is restored if there is an error.
+    fn replace_corpus(
+        &self,
+        cache: &mut LinkedHashMap<String, Arc<RwLock<CacheEntry>>>,
+        corpus_name: &str,
+        new_corpus_dir: &Path,
+    ) -> Result<()> {
+        let old_entry = cache.remove(corpus_name);
+
+        // if there is a cache entry, acquire an exclusive lock for it because
+        // other queries or background writers might still have access to it and need to finish first
+        let mut lock = old_entry
+            .as_ref()
+            .map(|db_entry| db_entry.write())
+            .transpose()?;
+        if let (Some(lock), Some(entry)) = (&mut lock, &old_entry)
+            && is_in_use(entry)
+        {
+            detach_from_disk(lock);
+        }
+
+        let db_path = self.corpus_directory_on_disk(corpus_name);
+        if db_path.is_dir() {
+            let replaced_dir = self.replaced_corpus_directory(corpus_name);
+            if let Some(parent) = replaced_dir.parent() {
+                std::fs::create_dir_all(parent)?;
+            }
+            std::fs::rename(&db_path, &replaced_dir)?;
+            if let Err(e) = std::fs::rename(new_corpus_dir, &db_path) {
+                std::fs::rename(&replaced_dir, &db_path)?;
+                return Err(e.into());
+            }
+        } else {
+            std::fs::rename(new_corpus_dir, &db_path)?;
+        }
+        Ok(())
     }
 
     fn copy_linked_files_and_update_references(
@@ -1104,7 +1167,8 @@ impl CorpusStorage {
                     && let Some(node_name) = node_annos.get_value_for_item(&node, &NODE_NAME_KEY)?
                 {
                     // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(node_name.as_ref());
+                    let relative_path = filenames::linked_file_path(&node_name);
+                    let new_path = new_base_path.join(&relative_path);
                     debug!(
                         "Copying file from {} to {}",
                         original_path.as_path().to_string_lossy(),
@@ -1116,7 +1180,6 @@ impl CorpusStorage {
                     std::fs::copy(&original_path, &new_path)?;
                     // Update the annotation to link to the new file with a relative path.
                     // Use the corpus directory as base path for this relative path.
-                    let relative_path = new_path.strip_prefix(new_base_path)?;
                     node_annos.insert(
                         node,
                         Annotation {
@@ -1131,7 +1194,7 @@ impl CorpusStorage {
     }
 
     /// Find all nodes of the type "file" and return an iterator
-    /// over a tuple of the node name and the absolute path of the linked file.
+    /// over a tuple of the relative path of the file in an export and the absolute path of the linked file.
     fn get_linked_files<'a>(
         &'a self,
         corpus_name: &'a str,
@@ -1165,10 +1228,16 @@ impl CorpusStorage {
                 })
                 .filter_map_ok(move |(node_name, file_path_value)| {
                     if let (Some(node_name), Some(file_path_value)) = (node_name, file_path_value) {
-                        return Some((
-                            node_name.to_string(),
-                            base_path.join(file_path_value.to_string()),
-                        ));
+                        let linked_file = PathBuf::from(file_path_value.as_ref());
+                        let original_path = base_path.join(&linked_file);
+                        // The exported graph contains the link, so the file must be located there
+                        // if this is possible.
+                        let export_path = if filenames::is_inside_directory(&linked_file) {
+                            linked_file
+                        } else {
+                            filenames::linked_file_path(&node_name)
+                        };
+                        return Some((export_path.to_string_lossy().to_string(), original_path));
                     }
                     None
                 })
@@ -1187,11 +1256,10 @@ impl CorpusStorage {
     ) -> Result<()> {
         if let Some(it_files) = self.get_linked_files(corpus_name, graph)? {
             for file in it_files {
-                let (node_name, original_path) = file?;
-                let node_name: String = node_name;
+                let (export_path, original_path) = file?;
+                let export_path: String = export_path;
                 if original_path.is_file() {
-                    // Create a new file name based on the node name and copy the file
-                    let new_path = new_base_path.join(&node_name);
+                    let new_path = new_base_path.join(&export_path);
                     if let Some(parent) = new_path.parent() {
                         std::fs::create_dir_all(parent)?;
                     }
@@ -1204,7 +1272,6 @@ impl CorpusStorage {
     }
 
     fn export_corpus_graphml(&self, corpus_name: &str, path: &Path) -> Result<()> {
-        let output_file = File::create(path)?;
         let entry = self.get_loaded_entry(corpus_name, false, false)?;
 
         // Ensure all components are loaded
@@ -1224,6 +1291,9 @@ impl CorpusStorage {
         };
 
         let config_as_str = config_as_str.as_deref();
+
+        // Do not touch the output before all parts of the corpus have been loaded
+        let output_file = File::create(path)?;
         graphannis_core::graph::serialization::graphml::export(
             graph,
             config_as_str,
@@ -1267,10 +1337,10 @@ impl CorpusStorage {
 
         let mut base_path = PathBuf::default();
         if use_corpus_subdirectory {
-            base_path.push(corpus_name);
+            base_path.push(filenames::exported_name(corpus_name));
         }
-        let path_in_zip = base_path.join(format!("{}.graphml", corpus_name));
-        zip.start_file(path_in_zip.to_string_lossy(), options)?;
+        let path_in_zip =
+            base_path.join(format!("{}.graphml", filenames::exported_name(corpus_name)));
 
         let entry = self.get_loaded_entry(corpus_name, false, false)?;
 
@@ -1291,6 +1361,7 @@ impl CorpusStorage {
         };
 
         let config_as_str: Option<&str> = config_as_str.as_deref();
+        zip.start_file(path_in_zip.to_string_lossy(), options)?;
         #[allow(clippy::needless_borrows_for_generic_args)]
         graphannis_core::graph::serialization::graphml::export(
             graph,
@@ -1302,13 +1373,14 @@ impl CorpusStorage {
         // Insert all linked files into the ZIP file
         if let Some(it_files) = self.get_linked_files(corpus_name.as_ref(), graph)? {
             for file in it_files {
-                let (node_name, original_path) = file?;
-                let node_name: String = node_name;
-
-                zip.start_file(base_path.join(&node_name).to_string_lossy(), options)?;
-                let file_to_copy = File::open(original_path)?;
-                let mut reader = BufReader::new(file_to_copy);
-                std::io::copy(&mut reader, zip)?;
+                let (export_path, original_path) = file?;
+                let export_path: String = export_path;
+                if original_path.is_file() {
+                    zip.start_file(base_path.join(&export_path).to_string_lossy(), options)?;
+                    let file_to_copy = File::open(original_path)?;
+                    let mut reader = BufReader::new(file_to_copy);
+                    std::io::copy(&mut reader, zip)?;
+                }
             }
         }
 
@@ -1326,6 +1398,14 @@ impl CorpusStorage {
         path: &Path,
         format: ExportFormat,
     ) -> Result<()> {
+        // Do not touch any existing files if one of the corpora does not exist
+        for corpus_name in corpora {
+            let corpus_name = corpus_name.as_ref();
+            if !self.corpus_directory_on_disk(corpus_name).is_dir() {
+                return Err(GraphAnnisError::NoSuchCorpus(corpus_name.to_string()));
+            }
+        }
+
         match format {
             ExportFormat::GraphML => {
                 if corpora.len() == 1 {
@@ -1344,10 +1424,13 @@ impl CorpusStorage {
                     if use_corpus_subdirectory {
                         // Use a sub-directory with the corpus name to avoid conflicts with the
                         // linked files
-                        path.push(corpus_name.as_ref());
+                        path.push(filenames::exported_name(corpus_name.as_ref()));
                     };
                     std::fs::create_dir_all(&path)?;
-                    path.push(format!("{}.graphml", corpus_name.as_ref()));
+                    path.push(format!(
+                        "{}.graphml",
+                        filenames::exported_name(corpus_name.as_ref())
+                    ));
                     self.export_corpus_graphml(corpus_name.as_ref(), &path)?;
                 }
             }
@@ -1394,12 +1477,16 @@ impl CorpusStorage {
         }
 
         if db_path.is_dir() {
-            std::fs::remove_dir_all(db_path).map_err(|e| {
-                CorpusStorageError::RemoveFileForCorpus {
+            // The corpus is either completely deleted or not at all: move it away before removing its files
+            self.recover_interrupted_changes();
+            let deleted_dir = self.tmp_dir().join("deleted");
+            std::fs::create_dir_all(self.tmp_dir())
+                .and_then(|_| std::fs::rename(&db_path, &deleted_dir))
+                .map_err(|e| CorpusStorageError::RemoveFileForCorpus {
                     corpus: corpus_name.to_string(),
                     source: e,
-                }
-            })?;
+                })?;
+            self.recover_interrupted_changes();
 
             Ok(true)
         } else if db_entry.is_some() {
@@ -2621,12 +2708,8 @@ impl CorpusStorage {
     }
 
     fn corpus_directory_on_disk(&self, corpus_name: &str) -> PathBuf {
-        let escaped_corpus_name: Cow<str> =
-            utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into();
-        let db_path: PathBuf = [self.db_dir.to_string_lossy().as_ref(), &escaped_corpus_name]
-            .iter()
-            .collect();
-        db_path
+        self.db_dir
+            .join(filenames::corpus_directory_name(corpus_name))
     }
 
     /// Return the current size and loaded corpora as debug string.
diff --git a/graphannis/src/annis/db/corpusstorage/filenames.rs b/graphannis/src/annis/db/corpusstorage/filenames.rs
new file mode 100644
index 0000000..96a3040
--- /dev/null
+++ b/graphannis/src/annis/db/corpusstorage/filenames.rs
@@ -0,0 +1,86 @@
+//! Mapping of corpus and node names (which are arbitrary strings) to the names of files and directories.
+
+use percent_encoding::{AsciiSet, CONTROLS, percent_decode_str, utf8_percent_encode};
+use std::path::{Component, Path, PathBuf};
+
+use super::{DB_LOCK_FILE_NAME, PATH_ENCODE_SET};
+
+/// Name of the directory for intermediate results, which is never the directory of a corpus.
+pub(super) const TMP_DIR_NAME: &str = "%tmp";
+
+/// Characters which are not allowed in file names on all platforms (and the escape character itself).
+const FILE_NAME_ENCODE_SET: &AsciiSet = &CONTROLS
+    .add(b'/')
+    .add(b'\\')
+    .add(b'%')
+    .add(b'<')
+    .add(b'>')
+    .add(b':')
+    .add(b'"')
+    .add(b'|')
+    .add(b'?')
+    .add(b'*');
+
+/// Encode names that can't be used as file name at all. The result for different names is different and also
+/// different from the percent-encoding of any other name.
+fn encode_special_name(name: &str) -> Option<String> {
+    match name {
+        "" => Some("%".to_string()),
+        "." | ".." => Some(name.replace('.', "%2E")),
+        _ => None,
+    }
+}
+
+fn decode(encoded: &str) -> String {
+    if encoded == "%" {
+        String::default()
+    } else {
+        percent_decode_str(encoded).decode_utf8_lossy().to_string()
+    }
+}
+
+/// Get the name of the directory a corpus is stored in.
+pub(super) fn corpus_directory_name(corpus_name: &str) -> String {
+    if corpus_name == DB_LOCK_FILE_NAME {
+        return corpus_name.replace('.', "%2E");
+    }
+    encode_special_name(corpus_name)
+        .unwrap_or_else(|| utf8_percent_encode(corpus_name, PATH_ENCODE_SET).to_string())
+}
+
+/// Get the corpus name for the name of a directory in the corpus storage.
+/// Returns `None` if the directory does not contain a corpus.
+pub(super) fn corpus_name_from_directory_name(directory_name: &str) -> Option<String> {
+    if directory_name == TMP_DIR_NAME {
+        None
+    } else {
+        Some(decode(directory_name))
+    }
+}
+
+/// Get the name of an exported file (without its extension) or directory for the corpus.
+pub(super) fn exported_name(corpus_name: &str) -> String {
+    encode_special_name(corpus_name)
+        .unwrap_or_else(|| utf8_percent_encode(corpus_name, FILE_NAME_ENCODE_SET).to_string())
+}
+
+/// Get the name of the corpus from the name of an exported file (without its extension).
+pub(super) fn corpus_name_from_exported_name(file_stem: &str) -> String {
+    let corpus_name = decode(file_stem);
+    if exported_name(&corpus_name) == file_stem {
+        corpus_name
+    } else {
+        // The file name is not the result of an export
+        file_stem.to_string()
+    }
+}
+
+/// Get the relative path for the linked file of a node. It never contains components referring to a parent directory.
+pub(super) fn linked_file_path(node_name: &str) -> PathBuf {
+    node_name.split('/').map(exported_name).collect()
+}
+
+/// Returns true if the path is relative and refers to something inside of the directory it is relative to.
+pub(super) fn is_inside_directory(path: &Path) -> bool {
+    path.components().all(|c| matches!(c, Component::Normal(_))) && path.file_name().is_some()
+}
-- 
2.43.0


From 4a63c9419d0ab1f3343f76a66db126669805f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:22 +0000
Subject: [PATCH 51/51] fix: two processes could open the same database
 directory while the lock file was deleted

---
 graphannis/src/annis/db/corpusstorage.rs | 98 ++++++++++++++++--------
 1 file changed, 64 insertions(+), 34 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index d34af73..81cd87a 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2712,6 +2712,25 @@ impl CorpusStorage {
             .join(filenames::corpus_directory_name(corpus_name))
     }
 
+    /// Delete the lock file when this corpus storage is closed. This helps in case
+    /// different users have acess to the corpus directory. The first
+    /// user owns the lock file and closes the CLI/web service. The
+    /// second user could take over the lock, but can't if the lock file
+    /// still exists and is owned by the previous user. An example
+    /// workflow is having a system user for the web service and
+    /// occasionally adding new corpora on the command line using an
+    /// administration account (see
+    /// <https://github.com/korpling/graphANNIS/issues/230>).
+    fn remove_lock_file(&self) {
+        let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
+        if lock_file_path.exists()
+            && lock_file_path.is_file()
+            && let Err(e) = std::fs::remove_file(lock_file_path)
+        {
+            warn!("Could not remove CorpusStorage lock file: {:?}", e);
+        }
+    }
+
     /// Return the current size and loaded corpora as debug string.
     fn report_corpus_cache_info<S: Display>(&self, message: S) -> Result<()> {
         let cache = self.corpus_cache.read()?;
@@ -2736,27 +2755,18 @@ impl Drop for CorpusStorage {
             nr_active_background_workers = cvar.wait(nr_active_background_workers).unwrap();
         }
 
+        // Other processes must not be able to lock a file that is going to be deleted, so delete it first if possible
+        #[cfg(unix)]
+        self.remove_lock_file();
+
         // unlock lock file
         if let Err(e) = FileExt::unlock(&self.lock_file) {
             warn!("Could not unlock CorpusStorage lock file: {:?}", e);
         } else {
             trace!("Unlocked CorpusStorage lock file");
-            // Delete the file after it has been unlocked. This helps in case
-            // different users have acess to the corpus directory. The first
-            // user owns the lock file and closes the CLI/web service. The
-            // second user could take over the lock, but can't if the lock file
-            // still exists and is owned by the previous user. An example
-            // workflow is having a system user for the web service and
-            // occasionally adding new corpora on the command line using an
-            // administration account (see
-            // https://github.com/korpling/graphANNIS/issues/230).
-            let lock_file_path = self.db_dir.join(DB_LOCK_FILE_NAME);
-            if lock_file_path.exists()
-                && lock_file_path.is_file()
-                && let Err(e) = std::fs::remove_file(lock_file_path)
-            {
-                warn!("Could not remove CorpusStorage lock file: {:?}", e);
-            }
+            // Locked files can not be deleted on all platforms
+            #[cfg(not(unix))]
+            self.remove_lock_file();
         }
     }
 }
@@ -2935,25 +2945,45 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
         source: e,
     })?;
     let lock_file_path = db_dir.join(DB_LOCK_FILE_NAME);
-    // check if we can get the file lock
-    let lock_file = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .create(true)
-        .truncate(true)
-        .open(lock_file_path.as_path())
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
-    lock_file
-        .try_lock_exclusive()
-        .map_err(|e| CorpusStorageError::LockCorpusDirectory {
-            path: db_dir.to_string_lossy().to_string(),
-            source: e,
-        })?;
+    let lock_error = |e| CorpusStorageError::LockCorpusDirectory {
+        path: db_dir.to_string_lossy().to_string(),
+        source: e,
+    };
+    loop {
+        // check if we can get the file lock
+        let lock_file = OpenOptions::new()
+            .read(true)
+            .write(true)
+            .create(true)
+            .truncate(true)
+            .open(lock_file_path.as_path())
+            .map_err(lock_error)?;
+        lock_file.try_lock_exclusive().map_err(lock_error)?;
+
+        // Another process could have deleted the file between opening and locking it
+        if is_file_at_path(&lock_file, &lock_file_path).map_err(lock_error)? {
+            return Ok(lock_file);
+        }
+    }
+}
+
+/// Returns if the path still belongs to the opened file.
+#[cfg(unix)]
+fn is_file_at_path(file: &File, path: &Path) -> std::io::Result<bool> {
+    use std::os::unix::fs::MetadataExt;
+
+    let opened = file.metadata()?;
+    match std::fs::metadata(path) {
+        Ok(existing) => Ok(opened.dev() == existing.dev() && opened.ino() == existing.ino()),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
+        Err(e) => Err(e),
+    }
+}
 
-    Ok(lock_file)
+/// Returns if the path still belongs to the opened file.
+#[cfg(not(unix))]
+fn is_file_at_path(_file: &File, path: &Path) -> std::io::Result<bool> {
+    path.try_exists()
 }
 
 fn sync_wal_updates_in_background(
-- 
2.43.0


From 3b4ddb6799af9878f21da4e6bc3241e349aacf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 1/8] sim: add yield and batch-size seams behind --cfg
 findex_sim (off by default)

---
 src/edx/mod.rs   |  4 ++++
 src/index/mod.rs | 11 ++++++++---
 src/lib.rs       |  5 +++++
 src/sim.rs       | 43 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 60 insertions(+), 3 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..fa08820 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -202,6 +202,10 @@ pub mod in_memory {
         type Target = Arc<Mutex<TokenToEncryptedValueMap<VALUE_LENGTH>>>;
 
         fn deref(&self) -> &Self::Target {
+            #[cfg(findex_sim)]
+            crate::sim::yield_point(&|| {
+                !matches!(self.0.try_lock(), Err(std::sync::TryLockError::WouldBlock))
+            });
             &self.0
         }
     }
diff --git a/src/index/mod.rs b/src/index/mod.rs
index 442cc95..7811d47 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -299,13 +299,18 @@ impl<
             )
             .into();
 
-        for i in 0..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {
+        #[cfg(not(findex_sim))]
+        let batch_size = Self::COMPACT_BATCH_SIZE;
+        #[cfg(findex_sim)]
+        let batch_size = crate::sim::compact_batch_size(Self::COMPACT_BATCH_SIZE);
+
+        for i in 0..entry_tokens.len() / batch_size {
             self.compact_batch(
                 &old_key,
                 &new_key,
                 new_label,
                 &entries_to_compact,
-                entry_tokens[i * Self::COMPACT_BATCH_SIZE..(i + 1) * Self::COMPACT_BATCH_SIZE]
+                entry_tokens[i * batch_size..(i + 1) * batch_size]
                     .iter()
                     .copied()
                     .collect(),
@@ -320,7 +325,7 @@ impl<
             new_label,
             &entries_to_compact,
             entry_tokens
-                [(entry_tokens.len() / Self::COMPACT_BATCH_SIZE) * Self::COMPACT_BATCH_SIZE..]
+                [(entry_tokens.len() / batch_size) * batch_size..]
                 .iter()
                 .copied()
                 .collect(),
diff --git a/src/lib.rs b/src/lib.rs
index f72e9d2..7b851f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,9 @@
 //! The `Index` traits is not a cryptographic one. It is used to simplify the interface and to hide
 //! the details of the cryptographic implementation when it is possible.
 
+// `findex_sim` is only set when building deterministic simulations.
+#![allow(unexpected_cfgs)]
+
 // Macro declarations should come first.
 #[macro_use]
 pub mod macros;
@@ -18,6 +21,8 @@ mod findex_graph;
 mod findex_mm;
 mod index;
 mod parameters;
+#[cfg(findex_sim)]
+pub mod sim;
 
 #[cfg(any(test, feature = "in_memory"))]
 pub use edx::in_memory::{InMemoryDb, InMemoryDbError};
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..937104f
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,43 @@
+//! Seams used by deterministic simulations of Findex.
+//!
+//! This module only exists when compiling with `--cfg findex_sim`; it is not part of the library
+//! otherwise.
+
+use std::{
+    cell::Cell,
+    sync::atomic::{AtomicUsize, Ordering},
+};
+
+/// Hook called by a thread about to lock a shared structure. Its argument tells whether the lock is
+/// currently free.
+pub type YieldHook = fn(&dyn Fn() -> bool);
+
+thread_local! {
+    static YIELD_HOOK: Cell<Option<YieldHook>> = const { Cell::new(None) };
+}
+
+static COMPACT_BATCH_SIZE: AtomicUsize = AtomicUsize::new(0);
+
+/// Installs (or removes) the hook of the current thread.
+pub fn set_yield_hook(hook: Option<YieldHook>) {
+    YIELD_HOOK.with(|h| h.set(hook));
+}
+
+/// Lets the simulator choose which thread runs next.
+pub fn yield_point(is_free: &dyn Fn() -> bool) {
+    if let Some(hook) = YIELD_HOOK.with(Cell::get) {
+        hook(is_free);
+    }
+}
+
+/// Overrides the size of the batches used by the compact operation (`0` restores the default).
+pub fn set_compact_batch_size(size: usize) {
+    COMPACT_BATCH_SIZE.store(size, Ordering::SeqCst);
+}
+
+pub(crate) fn compact_batch_size(default: usize) -> usize {
+    match COMPACT_BATCH_SIZE.load(Ordering::SeqCst) {
+        0 => default,
+        size => size,
+    }
+}
-- 
2.43.0


From caafd25971d0635f3fec4008b45a0d925a5fc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 2/8] fix: accept empty indexed values when reading them back

Adding an empty data or a pointer to the empty keyword succeeded, but made every
later search and compact operation reading the keyword fail.
---
 src/findex_graph/structs.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..1ca3a47 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,10 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From c088f81502a467c7aa45ed3e2f857429dd34c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 3/8] fix: always draw at least one chain to compact

The number of draws was rounded down: small indexes (or small rates) were never
compacted, no matter how many compact operations were run.
---
 src/index/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 7811d47..e615246 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -384,7 +384,8 @@ impl<
         // [coupon collector's problem](https://en.wikipedia.org/wiki/Coupon_collector%27s_problem).
         let n_draws = length.mul_add(length.log2() + GAMMA, 0.5);
         // Split this number among the given number of compact operations.
-        (n_draws * compacting_rate) as usize
+        // Always draw at least one token, otherwise small indexes would never be compacted.
+        (n_draws * compacting_rate).ceil() as usize
     }
 
     #[instrument(ret, err, skip_all)]
-- 
2.43.0


From e32bea7d569d9aa6510fd06d07f08b17003133c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 4/8] fix: walk the search results iteratively

The recursive walk overflowed the stack (aborting the process) when searching a
long chain of pointers.
---
 src/findex_graph/graph.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/findex_graph/graph.rs b/src/findex_graph/graph.rs
index b6a7915..03a74f2 100644
--- a/src/findex_graph/graph.rs
+++ b/src/findex_graph/graph.rs
@@ -132,32 +132,29 @@ impl<
     ///
     /// In order not to enter cycles, the same node is not visited twice. This
     /// is ensured by maintaining a set of visited nodes.
-    #[allow(clippy::only_used_in_recursion)]
+    ///
+    /// The walk is iterative: the depth of the graph is not bounded by the size of the call stack.
     pub fn walk<'a, Tag: Hash + Eq + Clone, Item: Clone + Hash + Eq>(
         &self,
         graph: &'a HashMap<Tag, HashSet<IndexedValue<Tag, Item>>>,
         entry: &'a Tag,
         visited: &mut HashSet<&'a Tag>,
     ) -> HashSet<Item> {
-        if visited.contains(&entry) {
-            // Results associated to this tag have already been recovered.
-            return HashSet::new();
-        }
-
-        visited.insert(entry);
+        let mut res = HashSet::new();
+        let mut to_visit = vec![entry];
 
-        let indexed_values = match graph.get(entry) {
-            Some(values) => values,
-            None => return HashSet::new(),
-        };
-
-        let mut res = HashSet::with_capacity(indexed_values.len());
+        while let Some(tag) = to_visit.pop() {
+            if !visited.insert(tag) {
+                // Results associated to this tag have already been recovered.
+                continue;
+            }
 
-        for value in indexed_values {
-            match value {
-                IndexedValue::Pointer(child) => res.extend(self.walk(graph, child, visited)),
-                IndexedValue::Data(data) => {
-                    res.insert(data.clone());
+            for value in graph.get(tag).into_iter().flatten() {
+                match value {
+                    IndexedValue::Pointer(child) => to_visit.push(child),
+                    IndexedValue::Data(data) => {
+                        res.insert(data.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From 4c5b252718bc447c05aac2c95dcb0cce787a2d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 5/8] fix: fetch tokens from the in-memory store atomically

The lock was taken once per token: a search running while another thread inserted
the lines of a value could read only some of these lines.
---
 src/edx/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index fa08820..6383b5b 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -310,16 +310,12 @@ pub mod in_memory {
             &self,
             tokens: Tokens,
         ) -> Result<TokenWithEncryptedValueList<VALUE_LENGTH>, InMemoryDbError> {
+            // Lock only once: the values returned should be those of a single instant.
+            let edx = self.lock().expect("couldn't lock the table");
             Ok(TokenWithEncryptedValueList::from(
                 tokens
                     .into_iter()
-                    .filter_map(|token| {
-                        self.lock()
-                            .expect("couldn't lock the table")
-                            .get(&token)
-                            .cloned()
-                            .map(|v| (token, v))
-                    })
+                    .filter_map(|token| edx.get(&token).cloned().map(|v| (token, v)))
                     .collect::<Vec<_>>(),
             ))
         }
-- 
2.43.0


From fae2e3ba113751731b6f61ca9cec6056a0622706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 6/8] fix: make the serialization of the in-memory store
 readable

The size of the values was read but not written: a saved store could not be
restored. A corrupted number of lines could also abort the process by requesting
too much memory.
---
 src/edx/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 6383b5b..dc9a8e1 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -166,7 +166,10 @@ pub mod in_memory {
     use async_trait::async_trait;
     use cosmian_crypto_core::CryptoCoreError;
     #[cfg(feature = "in_memory")]
-    use cosmian_crypto_core::{bytes_ser_de::Serializable, Nonce};
+    use cosmian_crypto_core::{
+        bytes_ser_de::{to_leb128_len, Serializable},
+        Nonce,
+    };
 
     use super::{
         DbInterface, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
@@ -246,8 +249,9 @@ pub mod in_memory {
         type Error = InMemoryDbError;
 
         fn length(&self) -> usize {
-            (self.lock().expect("could not lock mutex").deref()).len()
-                * (Token::LENGTH + NONCE_LENGTH + MAC_LENGTH + VALUE_LENGTH)
+            let n = self.lock().expect("could not lock mutex").len();
+            let value_length = EncryptedValue::<VALUE_LENGTH>::LENGTH;
+            to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)
         }
 
         fn write(
@@ -258,6 +262,8 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                // The size of the value is part of the format, see `read()`.
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
@@ -269,10 +275,11 @@ pub mod in_memory {
             de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
         ) -> Result<Self, Self::Error> {
             let n = de.read_leb128_u64()? as usize;
-            let mut table = HashMap::with_capacity(n);
+            // Do not trust `n` to allocate memory: the bytes may be corrupted.
+            let mut table = HashMap::new();
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
-                // previous version used to write the size of the value.
+                // size of the value.
                 let _ = de.read_leb128_u64();
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
-- 
2.43.0


From b849a20b2b10214a7b1b3f5fc5843d6b5806788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 7/8] fix: only revert the entries written by a failed compact
 operation

When the insertion of the new entries was refused because some already existed
(previous interrupted compact operation, or concurrent one with the same target),
these live entries were deleted.
---
 src/edx/mod.rs           |  2 +-
 src/findex_mm/compact.rs | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index dc9a8e1..51e21c1 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -39,7 +39,7 @@ pub trait DxEnc<const VALUE_LENGTH: usize> {
     type Error: std::error::Error;
 
     /// Fixed length encrypted value stored inside the encrypted dictionary.
-    type EncryptedValue: Debug + Sized + Clone;
+    type EncryptedValue: Debug + Sized + Clone + PartialEq;
 
     /// Backend storage.
     type Database: DbInterface<VALUE_LENGTH>;
diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..7fc52b1 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -205,7 +205,6 @@ impl<
             }
         }
         let new_links_tokens = new_links.keys().copied().collect();
-        let new_entry_tokens = new_entries.keys().copied().collect();
 
         debug!(
             "Step 3: tries applying modifications, reverts modifications upon failure or removes \
@@ -221,7 +220,7 @@ impl<
             )));
         };
 
-        let res = self.entry_table.insert(new_entries).await.map_err(|e| {
+        let res = self.entry_table.insert(new_entries.clone()).await.map_err(|e| {
             Error::Crypto(format!(
                 "An error occurred during the `insert` operation, all modifications were reverted: {e}"
             ))
@@ -232,7 +231,17 @@ impl<
             self.entry_table.delete(old_entries).await?;
         } else {
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
+            // Only delete the entries inserted above: the insertion may have failed because some
+            // tokens are used by the entries of another (previous or concurrent) compact operation.
+            let inserted_entries = self
+                .entry_table
+                .get(new_entries.keys().copied().collect())
+                .await?
+                .into_iter()
+                .filter(|(token, entry)| new_entries.get(token) == Some(entry))
+                .map(|(token, _)| token)
+                .collect();
+            self.entry_table.delete(inserted_entries).await?;
         }
 
         res
-- 
2.43.0


From ddedd5ad05fcf66467f9dfbf0681bd5d915b3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 8/8] fix: only compact the entries of the given label

The old label was ignored: the entries of all the labels used with the same key
(including leftovers of interrupted compact operations) were merged into the new
label, losing associations.
---
 src/findex_graph/compact.rs |  3 ++-
 src/findex_mm/compact.rs    |  9 +++++++--
 src/index/mod.rs            | 10 +++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/findex_graph/compact.rs b/src/findex_graph/compact.rs
index d0a0b5d..651167f 100644
--- a/src/findex_graph/compact.rs
+++ b/src/findex_graph/compact.rs
@@ -31,6 +31,7 @@ impl<
     >(
         &self,
         key: &<Self as GxEnc<UserError>>::Key,
+        label: &Label,
         tokens: HashSet<Token>,
         compact_target: &HashSet<Token>,
     ) -> Result<
@@ -42,7 +43,7 @@ impl<
     > {
         let (indexed_values, data) = self
             .findex_mm
-            .prepare_compacting(key, tokens, compact_target)
+            .prepare_compacting(key, label, tokens, compact_target)
             .await?;
         let indexed_values = indexed_values
             .into_iter()
diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 7fc52b1..5a82ddd 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -25,7 +25,8 @@ impl<
         Ok(self.entry_table.dump_tokens().await?.into_iter().collect())
     }
 
-    /// Fetches all chains associated to the given tokens.
+    /// Fetches all chains associated to the given tokens. Entries that are not
+    /// indexed under the given label are ignored.
     ///
     /// # Returns
     ///
@@ -33,11 +34,15 @@ impl<
     pub async fn prepare_compacting(
         &self,
         key: &<Self as MmEnc<SEED_LENGTH, UserError>>::Key,
+        label: &Label,
         tokens: HashSet<Token>,
         compact_target: &HashSet<Token>,
     ) -> Result<(HashMap<Token, HashSet<Vec<u8>>>, CompactingData<ChainTable>), Error<UserError>>
     {
-        let entries = self.fetch_entries(key, tokens).await?;
+        let mut entries = self.fetch_entries(key, tokens).await?;
+        entries.retain(|(token, entry)| {
+            *token == self.entry_table.tokenize(key, &entry.tag_hash, Some(label))
+        });
 
         let n_entries = entries.len();
         let entries = entries.into_iter().try_fold(
diff --git a/src/index/mod.rs b/src/index/mod.rs
index e615246..a09900d 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -308,6 +308,7 @@ impl<
             self.compact_batch(
                 &old_key,
                 &new_key,
+                old_label,
                 new_label,
                 &entries_to_compact,
                 entry_tokens[i * batch_size..(i + 1) * batch_size]
@@ -322,6 +323,7 @@ impl<
         self.compact_batch(
             &old_key,
             &new_key,
+            old_label,
             new_label,
             &entries_to_compact,
             entry_tokens
@@ -396,6 +398,7 @@ impl<
         &self,
         old_key: &<FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Key,
         new_key: &<FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Key,
+        old_label: &Label,
         new_label: &Label,
         tokens_to_compact: &Tokens,
         tokens_to_fetch: Tokens,
@@ -406,7 +409,12 @@ impl<
         trace!("compact_batch: entering: tokens_to_fetch: {tokens_to_fetch}");
         let (indexed_values, data) = self
             .findex_graph
-            .prepare_compact::<Keyword, Data>(old_key, tokens_to_fetch.into(), tokens_to_compact)
+            .prepare_compact::<Keyword, Data>(
+                old_key,
+                old_label,
+                tokens_to_fetch.into(),
+                tokens_to_compact,
+            )
             .await?;
 
         let indexed_data = indexed_values
-- 
2.43.0


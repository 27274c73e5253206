From 95e97766d6e43c2fe160f05716a8c2c9a1fe43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 01/20] fix: commit a block with the state it leads to, in one
 write

---
 src/storage/store/block.rs        | 23 +++++++++++++++++++++--
 src/storage/store/block_engine.rs | 10 ++++++----
 src/storage/store/engine.rs       | 12 ++++++------
 src/storage/store/shard.rs        | 22 ++++++++++++++++++++--
 4 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/storage/store/block.rs b/src/storage/store/block.rs
index 242f2d6..f14e2ec 100644
--- a/src/storage/store/block.rs
+++ b/src/storage/store/block.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::Block;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -161,6 +161,17 @@ pub fn get_blocks_in_range(
 
 fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
     let mut txn = db.txn();
+    stage_block(db, &mut txn, block)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+// Adds the block to the transaction, so that it's written together with the state it leads to.
+fn stage_block(
+    db: &RocksDB,
+    txn: &mut RocksDbTransactionBatch,
+    block: &Block,
+) -> Result<(), BlockStorageError> {
     let header = block
         .header
         .as_ref()
@@ -178,7 +189,6 @@ fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -197,6 +207,15 @@ impl BlockStore {
         put_block(&self.db, block)
     }
 
+    #[inline]
+    pub fn stage_block(
+        &self,
+        txn: &mut RocksDbTransactionBatch,
+        block: &Block,
+    ) -> Result<(), BlockStorageError> {
+        stage_block(&self.db, txn, block)
+    }
+
     #[inline]
     pub fn get_first_block(&self) -> Result<Option<Block>, BlockStorageError> {
         get_first_or_last_block(&self.db, FirstOrLast::First)
diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index c6104d0..aca82d8 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -2248,11 +2248,13 @@ impl BlockEngine {
                     panic!("State change commit failed: {}", err);
                 }
                 Ok(()) => {
+                    // The block is committed with the state it leads to: after a crash between
+                    // the two, the height would be replayed on top of its own effects.
+                    self.stores
+                        .block_store
+                        .stage_block(&mut txn, block)
+                        .unwrap();
                     self.db.commit(txn).unwrap();
-                    let result = self.stores.block_store.put_block(block);
-                    if result.is_err() {
-                        error!("Failed to store block: {:?}", result.err());
-                    }
                     self.stores.trie.reload(&self.db).unwrap();
                     self.metrics
                         .publish_transaction_counts(&block.transactions, ProposalSource::Commit);
diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 31845aa..9ce3150 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2460,6 +2460,12 @@ impl ShardEngine {
         _ = self.emit_commit_metrics(&shard_chunk, &events);
 
         let now = std::time::Instant::now();
+        // The chunk is committed with the state it leads to: after a crash between the two, the
+        // height would be replayed on top of its own effects.
+        self.stores
+            .shard_store
+            .stage_shard_chunk(&mut txn, shard_chunk)
+            .unwrap();
         self.db.commit(txn).unwrap();
         for mut event in events {
             event.timestamp = header.timestamp;
@@ -2467,12 +2473,6 @@ impl ShardEngine {
         }
         self.stores.trie.reload(&self.db).unwrap();
 
-        match self.stores.shard_store.put_shard_chunk(shard_chunk) {
-            Err(err) => {
-                error!("Unable to write shard chunk to store {}", err)
-            }
-            Ok(()) => {}
-        }
         let elapsed = now.elapsed();
         self.metrics
             .time_with_shard("commit_time", elapsed.as_millis() as u64);
diff --git a/src/storage/store/shard.rs b/src/storage/store/shard.rs
index cd82a37..4fde1c7 100644
--- a/src/storage/store/shard.rs
+++ b/src/storage/store/shard.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::ShardChunk;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -154,6 +154,17 @@ pub fn get_current_header(db: &RocksDB) -> Result<Option<proto::ShardHeader>, Sh
 
 pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), ShardStorageError> {
     let mut txn = db.txn();
+    stage_shard_chunk(db, &mut txn, shard_chunk)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+// Adds the shard chunk to the transaction, so that it's written together with the state it leads to.
+fn stage_shard_chunk(
+    db: &RocksDB,
+    txn: &mut RocksDbTransactionBatch,
+    shard_chunk: &ShardChunk,
+) -> Result<(), ShardStorageError> {
     let header = shard_chunk
         .header
         .as_ref()
@@ -171,7 +182,6 @@ pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), Sha
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -202,6 +212,14 @@ impl ShardStore {
         put_shard_chunk(&self.db, shard_chunk)
     }
 
+    pub fn stage_shard_chunk(
+        &self,
+        txn: &mut RocksDbTransactionBatch,
+        shard_chunk: &ShardChunk,
+    ) -> Result<(), ShardStorageError> {
+        stage_shard_chunk(&self.db, txn, shard_chunk)
+    }
+
     pub fn get_first_shard_chunk(&self) -> Result<Option<ShardChunk>, ShardStorageError> {
         get_first_or_last_shard_chunk(&self.db, FirstOrLast::First)
     }
-- 
2.43.0


From 40478ff43afc2b59e60e100d0dcf74a3587c6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 02/20] fix: prune and revoke in the same order on every node

---
 src/storage/store/engine.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 9ce3150..a585ca5 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -36,7 +36,7 @@ use informalsystems_malachitebft_core_types::Round;
 use itertools::Itertools;
 use merkle_trie::TrieKey;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 use std::str;
 use std::string::ToString;
 use std::sync::Arc;
@@ -1243,8 +1243,9 @@ impl ShardEngine {
         let mut pruned_messages_count = 0;
         let mut revoked_messages_count = 0;
         let mut events = vec![];
-        let mut message_types_to_prune = HashSet::new();
-        let mut revoked_signers = HashSet::new();
+        // Ordered, since every node must produce the same events with the same ids
+        let mut message_types_to_prune = BTreeSet::new();
+        let mut revoked_signers = BTreeSet::new();
 
         let mut validation_errors = vec![];
 
-- 
2.43.0


From 4ab88353c931b6af1064c1a1afa86053c6c64444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 03/20] fix: keep the fid index of a name whose proof is
 renewed for the same fid

---
 src/storage/store/account/name_registry_events.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/store/account/name_registry_events.rs b/src/storage/store/account/name_registry_events.rs
index 099527d..c5e1c5c 100644
--- a/src/storage/store/account/name_registry_events.rs
+++ b/src/storage/store/account/name_registry_events.rs
@@ -83,8 +83,9 @@ pub fn put_username_proof_transaction(
     let secondary_key = make_fname_username_proof_by_fid_key(username_proof.fid);
     txn.put(secondary_key, primary_key);
 
-    // If a username is being transferred, remove the existing secondary key.
-    if let Some(existing_fid) = existing_fid {
+    // If a username is being transferred, remove the existing secondary key. When the proof is
+    // renewed for the same fid, that key is the one just written.
+    if let Some(existing_fid) = existing_fid.filter(|fid| *fid != username_proof.fid) {
         let secondary_key = make_fname_username_proof_by_fid_key(existing_fid);
         txn.delete(secondary_key);
     }
-- 
2.43.0


From c33e67c2ce4ac55b20f235db4e45073133aa06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 04/20] fix: leave longer urls out of lookups by parent or
 target url

---
 src/storage/store/account/cast_store.rs     | 8 +++++++-
 src/storage/store/account/reaction_store.rs | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/storage/store/account/cast_store.rs b/src/storage/store/account/cast_store.rs
index b0e6608..861761b 100644
--- a/src/storage/store/account/cast_store.rs
+++ b/src/storage/store/account/cast_store.rs
@@ -2,7 +2,8 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash,
     store::{Store, StoreDef},
-    MessagesPage, StoreEventHandler, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE,
+    TS_HASH_LENGTH,
 };
 use crate::storage::constants::{RootPrefix, UserPostfix};
 use crate::storage::db::PageOptions;
@@ -463,6 +464,11 @@ impl CastStore {
                 let ts_hash_offset = prefix.len();
                 let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
 
+                // A longer url that starts with this one shares the prefix
+                if key.len() != fid_offset + FID_BYTES {
+                    return Ok(false);
+                }
+
                 let fid = read_fid_key(key, fid_offset);
                 let ts_hash = read_ts_hash(key, ts_hash_offset);
                 let message_primary_key =
diff --git a/src/storage/store/account/reaction_store.rs b/src/storage/store/account/reaction_store.rs
index c8a5e90..3d8711e 100644
--- a/src/storage/store/account/reaction_store.rs
+++ b/src/storage/store/account/reaction_store.rs
@@ -2,7 +2,7 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash, require_page_token_in_prefix,
     store::{FollowIndexGate, Store, StoreDef},
-    MessagesPage, StoreEventHandler, PAGE_SIZE_MAX, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, PAGE_SIZE_MAX, TS_HASH_LENGTH,
 };
 use crate::core::channel_uri::{channel_id_for_follow_target, ChannelRegistrar};
 use crate::storage::store::account::ChannelPage;
@@ -747,6 +747,11 @@ impl ReactionStore {
             Some(increment_vec_u8(&start_prefix)),
             page_options,
             |key, value| {
+                // A longer url that starts with this one shares the prefix
+                if key.len() != start_prefix.len() + TS_HASH_LENGTH + FID_BYTES {
+                    return Ok(false);
+                }
+
                 if reaction_type == ReactionType::None as i32
                     || (value.len() == 1 && value[0] == reaction_type as u8)
                 {
-- 
2.43.0


From 770a65faf8f71570fc4e8a2cbe4a5c36234cde82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 05/20] fix: apply a prepared execution only to the very
 contents it executed

A node that had validated one proposal and then saw another decided at the
same height used the first one's events and rows whenever the state roots
agreed. Messages that fail leave the root as it is, but have events with ids
of their own, so nodes ended up with different events for the same block.
---
 src/storage/store/engine.rs | 57 +++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index a585ca5..4ea62d5 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -162,7 +162,7 @@ struct CachedTransaction {
     shard_root: Vec<u8>,
     events: Vec<HubEvent>,
     max_block_event_seqnum: u64,
-    block_events_hash: Vec<u8>,
+    contents_hash: Vec<u8>,
     txn: RocksDbTransactionBatch,
 }
 
@@ -437,14 +437,14 @@ impl ShardEngine {
         // TODO: this should probably operate automatically via drop trait
         self.stores.trie.reload(&self.db).unwrap();
 
-        let block_events_hash = Self::compute_block_events_hash(&result.transactions);
+        let contents_hash = Self::compute_contents_hash(&result.transactions, &timestamp);
 
         self.pending_txn = Some(CachedTransaction {
             shard_root: result.new_state_root.clone(),
             events: result.events.clone(),
             txn,
             max_block_event_seqnum: result.max_block_event_seqnum,
-            block_events_hash,
+            contents_hash,
         });
 
         let proposal_duration = now.elapsed();
@@ -2382,15 +2382,17 @@ impl ShardEngine {
                 result = false;
             }
             Ok((events, max_block_event_seqnum)) => {
-                let block_events_hash =
-                    Self::compute_block_events_hash(&shard_state_change.transactions);
+                let contents_hash = Self::compute_contents_hash(
+                    &shard_state_change.transactions,
+                    &shard_state_change.timestamp,
+                );
 
                 self.pending_txn = Some(CachedTransaction {
                     shard_root: shard_root.clone(),
                     txn,
                     events,
                     max_block_event_seqnum,
-                    block_events_hash,
+                    contents_hash,
                 });
             }
         }
@@ -2598,29 +2600,22 @@ impl ShardEngine {
         }
     }
 
-    fn compute_block_events_hash(transactions: &[Transaction]) -> Vec<u8> {
-        let block_events: Vec<_> = transactions
-            .iter()
-            .flat_map(|txn| &txn.system_messages)
-            .filter_map(|msg| msg.block_event.as_ref())
-            .collect();
-
-        if block_events.is_empty() {
-            vec![]
-        } else {
-            let mut events_hasher = blake3::Hasher::new();
-            for event in block_events.iter() {
-                events_hasher.update(&event.hash);
-            }
-            events_hasher.finalize().as_bytes().to_vec()
+    // Everything that decides which events and rows executing the transactions leads to. The state
+    // root alone does not: a message that fails leaves the root as it is, but has an event.
+    fn compute_contents_hash(transactions: &[Transaction], timestamp: &FarcasterTime) -> Vec<u8> {
+        let mut hasher = blake3::Hasher::new();
+        hasher.update(&timestamp.to_u64().to_be_bytes());
+        for transaction in transactions {
+            hasher.update(&prost::Message::encode_length_delimited_to_vec(transaction));
         }
+        hasher.finalize().as_bytes().to_vec()
     }
 
     fn is_cached_txn_valid(
         &self,
         cached_txn: &CachedTransaction,
         shard_root: &[u8],
-        transactions: &[Transaction],
+        contents_hash: &[u8],
     ) -> bool {
         // Check if shard roots match
         if &cached_txn.shard_root != shard_root {
@@ -2638,20 +2633,18 @@ impl ShardEngine {
             return false;
         }
 
-        // TODO(aditi): Ideally we would handle this by putting max block event seqnum in the block header but this requires a protocol upgrade.
-        // Compute block events hash from transactions and compare with cached hash
-        let computed_hash = Self::compute_block_events_hash(transactions);
-        if computed_hash != cached_txn.block_events_hash {
+        // Different contents can lead to the same root
+        if &cached_txn.contents_hash != contents_hash {
             error!(
                 shard_id = self.shard_id,
-                cached_block_events_hash = hex::encode(&cached_txn.block_events_hash),
-                computed_block_events_hash = hex::encode(&computed_hash),
-                "Cached block events hash mismatch"
+                cached_contents_hash = hex::encode(&cached_txn.contents_hash),
+                commit_contents_hash = hex::encode(contents_hash),
+                "Cached contents hash mismatch"
             );
             self.metrics.count(
                 "commit.cache_miss",
                 1,
-                vec![("reason", "block_events_hash_mismatch")],
+                vec![("reason", "contents_hash_mismatch")],
             );
             return false;
         }
@@ -2667,7 +2660,9 @@ impl ShardEngine {
 
         let mut applied_cached_txn = false;
         if let Some(cached_txn) = self.pending_txn.clone() {
-            if self.is_cached_txn_valid(&cached_txn, shard_root, transactions) {
+            let timestamp = FarcasterTime::new(shard_chunk.header.as_ref().unwrap().timestamp);
+            let contents_hash = Self::compute_contents_hash(transactions, &timestamp);
+            if self.is_cached_txn_valid(&cached_txn, shard_root, &contents_hash) {
                 applied_cached_txn = true;
                 self.metrics.count("commit.cache_hit", 1, vec![]);
                 self.commit_and_emit_events(
-- 
2.43.0


From a9f21c6215c0450d7b032e52024f691c2d32a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 06/20] fix: refuse a message whose data is not what its signed
 bytes say

With data_bytes present, the hash and signature were checked over the bytes
and the structure of what they decode to, but the account's state was changed
by the data field beside them. Submission decodes the bytes into it; a block's
proposer need not, and could have any content accepted under a genuine
signature.
---
 src/core/validations/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/validations/message.rs b/src/core/validations/message.rs
index 5ea4a95..3a7499a 100644
--- a/src/core/validations/message.rs
+++ b/src/core/validations/message.rs
@@ -111,6 +111,10 @@ pub fn validate_message(
         }
         match MessageData::decode(message.data_bytes.as_ref().unwrap().as_slice()) {
             Ok(data) => {
+                // The hash and signature cover the bytes, but it is the data that gets merged
+                if message.data.as_ref().is_some_and(|given| *given != data) {
+                    return Err(ValidationError::InvalidData);
+                }
                 message_data = data.clone();
             }
             Err(_) => {
-- 
2.43.0


From deb96601712bf535114d38966bc7ff1af322ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 07/20] fix: refuse a cast or cast removal whose body is of the
 other kind

---
 src/storage/store/account/cast_store.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/storage/store/account/cast_store.rs b/src/storage/store/account/cast_store.rs
index 861761b..fbe204d 100644
--- a/src/storage/store/account/cast_store.rs
+++ b/src/storage/store/account/cast_store.rs
@@ -74,7 +74,10 @@ impl StoreDef for CastStoreDef {
         let data = message.data.as_ref().unwrap();
         message.signature_scheme == message::SignatureScheme::Ed25519 as i32
             && data.r#type == MessageType::CastAdd as i32
-            && data.body.is_some()
+            && matches!(
+                data.body,
+                Some(message::message_data::Body::CastAddBody(_))
+            )
     }
 
     #[inline]
@@ -85,7 +88,10 @@ impl StoreDef for CastStoreDef {
         let data = message.data.as_ref().unwrap();
         message.signature_scheme == message::SignatureScheme::Ed25519 as i32
             && data.r#type == MessageType::CastRemove as i32
-            && data.body.is_some()
+            && matches!(
+                data.body,
+                Some(message::message_data::Body::CastRemoveBody(_))
+            )
     }
 
     fn compact_state_message_type(&self) -> u8 {
-- 
2.43.0


From 28cd9b9a43b1b10df45b3177ddeca215e1b5a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 08/20] fix: judge storage expiry by the block's time, not by
 the local clock

The units in force decide which messages a block takes and what pruning
removes, so a node replaying a block after units lapsed (or with another
clock) computed another state root and stopped. Units lent from expired
units also wrapped the remaining count below zero.
---
 .../store/account/onchain_event_store.rs      | 79 ++++++++++++++-----
 src/storage/store/block_engine.rs             | 76 ++++++++++++++----
 src/storage/store/engine.rs                   | 26 +++++-
 src/storage/store/stores.rs                   | 40 ++++++++--
 4 files changed, 180 insertions(+), 41 deletions(-)

diff --git a/src/storage/store/account/onchain_event_store.rs b/src/storage/store/account/onchain_event_store.rs
index e1966f3..4c0b78b 100644
--- a/src/storage/store/account/onchain_event_store.rs
+++ b/src/storage/store/account/onchain_event_store.rs
@@ -1023,19 +1023,33 @@ impl StorageSlot {
         Err(OnchainEventStorageError::InvalidStorageRentEventType)
     }
 
-    pub fn is_active(&self) -> bool {
-        let current_time = std::time::SystemTime::now()
+    fn current_time() -> u64 {
+        std::time::SystemTime::now()
             .duration_since(std::time::UNIX_EPOCH)
             .unwrap()
-            .as_secs() as u32;
-        current_time < self.invalidate_at
+            .as_secs()
+    }
+
+    pub fn is_active(&self) -> bool {
+        self.is_active_at(Self::current_time())
+    }
+
+    /// Whether the storage is in force at `unix_seconds`. Everything that decides the contents or
+    /// the outcome of a block passes the block's own timestamp: the local clock differs between
+    /// nodes, and between a block's proposal and its replay.
+    pub fn is_active_at(&self, unix_seconds: u64) -> bool {
+        unix_seconds < self.invalidate_at as u64
     }
 
     pub fn merge(&mut self, other: &StorageSlot) -> bool {
-        if !other.is_active() {
+        self.merge_at(other, Self::current_time())
+    }
+
+    pub fn merge_at(&mut self, other: &StorageSlot, unix_seconds: u64) -> bool {
+        if !other.is_active_at(unix_seconds) {
             return false;
         }
-        if !self.is_active() {
+        if !self.is_active_at(unix_seconds) {
             *self = other.clone();
             return true;
         }
@@ -1047,10 +1061,15 @@ impl StorageSlot {
     }
 
     pub fn sub(&mut self, other: &StorageSlot) {
-        if other.is_active() {
-            self.units_legacy -= other.units_legacy;
-            self.units_2024 -= other.units_2024;
-            self.units_2025 -= other.units_2025;
+        self.sub_at(other, Self::current_time())
+    }
+
+    /// Lent units outlive the units they were lent from, so what is left never goes below zero.
+    pub fn sub_at(&mut self, other: &StorageSlot, unix_seconds: u64) {
+        if other.is_active_at(unix_seconds) {
+            self.units_legacy = self.units_legacy.saturating_sub(other.units_legacy);
+            self.units_2024 = self.units_2024.saturating_sub(other.units_2024);
+            self.units_2025 = self.units_2025.saturating_sub(other.units_2025);
         }
     }
 }
@@ -1338,26 +1357,50 @@ impl OnchainEventStore {
         pending_events: &[OnChainEvent],
         lent_storage: &StorageSlot,
         borrowed_storage: &StorageSlot,
+    ) -> Result<StorageSlot, OnchainEventStorageError> {
+        self.get_storage_slot_for_fid_at(
+            fid,
+            network,
+            engine_version,
+            pending_events,
+            lent_storage,
+            borrowed_storage,
+            StorageSlot::current_time(),
+        )
+    }
+
+    /// The storage of `fid` that is in force at `unix_seconds`.
+    pub fn get_storage_slot_for_fid_at(
+        &self,
+        fid: u64,
+        network: FarcasterNetwork,
+        engine_version: EngineVersion,
+        pending_events: &[OnChainEvent],
+        lent_storage: &StorageSlot,
+        borrowed_storage: &StorageSlot,
+        unix_seconds: u64,
     ) -> Result<StorageSlot, OnchainEventStorageError> {
         let rent_events =
             self.get_onchain_events(OnChainEventType::EventTypeStorageRent, Some(fid))?;
         let mut storage_slot = StorageSlot::new(0, 0, 0, 0);
         for rent_event in rent_events {
-            storage_slot.merge(&StorageSlot::from_event(
-                &rent_event,
-                network,
-                engine_version,
-            )?);
+            storage_slot.merge_at(
+                &StorageSlot::from_event(&rent_event, network, engine_version)?,
+                unix_seconds,
+            );
         }
         // Now, virtually merge any pending rent events from the current transaction
         for event in pending_events {
             if event.fid == fid && event.r#type() == OnChainEventType::EventTypeStorageRent {
-                storage_slot.merge(&StorageSlot::from_event(event, network, engine_version)?);
+                storage_slot.merge_at(
+                    &StorageSlot::from_event(event, network, engine_version)?,
+                    unix_seconds,
+                );
             }
         }
 
-        storage_slot.sub(lent_storage);
-        storage_slot.merge(borrowed_storage);
+        storage_slot.sub_at(lent_storage, unix_seconds);
+        storage_slot.merge_at(borrowed_storage, unix_seconds);
 
         Ok(storage_slot)
     }
diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index aca82d8..ba5d6f0 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -458,6 +458,26 @@ impl BlockStores {
         pending_onchain_events: &Vec<OnChainEvent>,
         count_lent_storage: bool,
         count_borrowed_storage: bool,
+    ) -> Option<StorageSlot> {
+        self.get_storage_slot_for_fid_at(
+            fid,
+            engine_version,
+            pending_onchain_events,
+            count_lent_storage,
+            count_borrowed_storage,
+            &FarcasterTime::current(),
+        )
+    }
+
+    /// The storage of `fid` that is in force at `timestamp`.
+    pub fn get_storage_slot_for_fid_at(
+        &self,
+        fid: u64,
+        engine_version: EngineVersion,
+        pending_onchain_events: &Vec<OnChainEvent>,
+        count_lent_storage: bool,
+        count_borrowed_storage: bool,
+        timestamp: &FarcasterTime,
     ) -> Option<StorageSlot> {
         let lent_storage = if count_lent_storage {
             StorageLendStore::get_lent_storage(&self.storage_lend_store, fid).ok()?
@@ -472,13 +492,14 @@ impl BlockStores {
         };
 
         self.onchain_event_store
-            .get_storage_slot_for_fid(
+            .get_storage_slot_for_fid_at(
                 fid,
                 self.network,
                 engine_version,
                 pending_onchain_events.as_slice(),
                 &lent_storage,
                 &borrowed_storage,
+                timestamp.to_unix_seconds(),
             )
             .ok()
     }
@@ -1038,7 +1059,14 @@ impl BlockEngine {
             crate::proto::message_data::Body::LendStorageBody(lend_storage) => {
                 let total_storage_purchased = self
                     .stores
-                    .get_storage_slot_for_fid(message_data.fid, version, &vec![], false, false)
+                    .get_storage_slot_for_fid_at(
+                        message_data.fid,
+                        version,
+                        &vec![],
+                        false,
+                        false,
+                        timestamp,
+                    )
                     .ok_or(MessageValidationError::InsufficientStorage)?;
 
                 // Restricts who can lend storage to some reasonable set of users. Don't enforce this limit in devnet and testnet so we can test with fewer storage units.
@@ -1392,11 +1420,15 @@ impl BlockEngine {
         &mut self,
         storage_slot: &mut StorageSlot,
         merge_message_body: &MergeMessageBody,
+        timestamp: &FarcasterTime,
     ) -> Result<(), BlockEngineError> {
         if let Some(added_message) = &merge_message_body.message {
             match added_message.data.as_ref().unwrap().body.as_ref().unwrap() {
                 proto::message_data::Body::LendStorageBody(lend_storage_body) => {
-                    storage_slot.sub(&StorageSlot::from_storage_lend(&lend_storage_body));
+                    storage_slot.sub_at(
+                        &StorageSlot::from_storage_lend(&lend_storage_body),
+                        timestamp.to_unix_seconds(),
+                    );
                 }
                 _ => {}
             }
@@ -1412,7 +1444,10 @@ impl BlockEngine {
                 .unwrap()
             {
                 proto::message_data::Body::LendStorageBody(lend_storage_body) => {
-                    storage_slot.merge(&StorageSlot::from_storage_lend(&lend_storage_body));
+                    storage_slot.merge_at(
+                        &StorageSlot::from_storage_lend(&lend_storage_body),
+                        timestamp.to_unix_seconds(),
+                    );
                 }
                 _ => {}
             }
@@ -1463,7 +1498,7 @@ impl BlockEngine {
         }
 
         let mut storage_slot = self
-            .storage_slot_for_transaction(snapchain_txn, version, true, false)
+            .storage_slot_for_transaction(snapchain_txn, version, true, false, timestamp)
             .unwrap();
         // Lending validation must exclude borrowed units, but verification quota must include
         // them exactly as data-shard StoreLimits does. Keep two views and apply any successful
@@ -1488,7 +1523,7 @@ impl BlockEngine {
             // would turn a transient local read failure into a panic on the propose/validate/
             // commit paths. Surface it as an error instead, matching the data shard, whose
             // equivalent read maps to `EngineError::UsageCountError` rather than aborting.
-            self.storage_slot_for_transaction(snapchain_txn, version, true, true)
+            self.storage_slot_for_transaction(snapchain_txn, version, true, true, timestamp)
                 .ok_or_else(|| {
                     BlockEngineError::HubError(HubError::internal_db_error(
                         "unable to read storage slot for shard-0 verification quota",
@@ -1529,10 +1564,11 @@ impl BlockEngine {
                                     {
                                         // Both views must see the same lend, or verification
                                         // admission and lend validation drift apart.
-                                        self.on_merge_message(&mut storage_slot, body)?;
+                                        self.on_merge_message(&mut storage_slot, body, timestamp)?;
                                         self.on_merge_message(
                                             &mut verification_storage_slot,
                                             body,
+                                            timestamp,
                                         )?;
                                     }
                                 }
@@ -1874,6 +1910,7 @@ impl BlockEngine {
         engine_version: EngineVersion,
         count_lent_storage: bool,
         count_borrowed_storage: bool,
+        timestamp: &FarcasterTime,
     ) -> Option<StorageSlot> {
         let pending_onchain_events: Vec<OnChainEvent> = snapchain_txn
             .system_messages
@@ -1881,12 +1918,13 @@ impl BlockEngine {
             .filter_map(|vm| vm.on_chain_event.clone())
             .collect();
 
-        self.stores.get_storage_slot_for_fid(
+        self.stores.get_storage_slot_for_fid_at(
             snapchain_txn.fid,
             engine_version,
             &pending_onchain_events,
             count_lent_storage,
             count_borrowed_storage,
+            timestamp,
         )
     }
 
@@ -1908,11 +1946,16 @@ impl BlockEngine {
             .into_iter()
             .filter_map(|mut transaction| {
                 // TODO(aditi): We could share this code with the shard engine but there may be other things we want to add here. For example, it may make sense to exclude validator messages and user messages that aren't intended for shard 0 here so a bug in the mempool won't impact the protocol in a significant way.
-                let storage_slot =
-                    self.storage_slot_for_transaction(&transaction, version, true, true)?;
+                let storage_slot = self.storage_slot_for_transaction(
+                    &transaction,
+                    version,
+                    true,
+                    true,
+                    timestamp,
+                )?;
 
                 // Drop events if storage slot is inactive
-                if !storage_slot.is_active() {
+                if !storage_slot.is_active_at(timestamp.to_unix_seconds()) {
                     transaction.user_messages = vec![];
                 }
 
@@ -2013,9 +2056,14 @@ impl BlockEngine {
             .unwrap()
             .into_iter()
             .filter_map(|mut transaction| {
-                let storage_slot =
-                    self.storage_slot_for_transaction(&transaction, version, true, true)?;
-                if !storage_slot.is_active() {
+                let storage_slot = self.storage_slot_for_transaction(
+                    &transaction,
+                    version,
+                    true,
+                    true,
+                    &timestamp,
+                )?;
+                if !storage_slot.is_active_at(timestamp.to_unix_seconds()) {
                     transaction.user_messages.clear();
                 }
                 (!transaction.system_messages.is_empty() || !transaction.user_messages.is_empty())
diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 4ea62d5..e32b0b0 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -337,11 +337,17 @@ impl ShardEngine {
 
                 let storage_slot = self
                     .stores
-                    .get_storage_slot_for_fid(transaction.fid, version, true, maybe_onchainevents)
+                    .get_storage_slot_for_fid_at(
+                        transaction.fid,
+                        version,
+                        true,
+                        maybe_onchainevents,
+                        timestamp,
+                    )
                     .ok()?;
 
                 // Drop events if storage slot is inactive
-                if !storage_slot.is_active() {
+                if !storage_slot.is_active_at(timestamp.to_unix_seconds()) {
                     transaction.user_messages = vec![];
                 }
 
@@ -1624,7 +1630,7 @@ impl ShardEngine {
 
         for msg_type in message_types_to_prune {
             let fid = snapchain_txn.fid;
-            let result = self.prune_messages(fid, msg_type, txn_batch, &version);
+            let result = self.prune_messages_at(fid, msg_type, txn_batch, &version, timestamp);
             match result {
                 Ok(pruned_events) => {
                     for event in pruned_events {
@@ -1938,16 +1944,28 @@ impl ShardEngine {
             .map_err(MessageValidationError::StoreError)?])
     }
 
+    #[cfg(test)]
     fn prune_messages(
         &mut self,
         fid: u64,
         msg_type: MessageType,
         txn_batch: &mut RocksDbTransactionBatch,
         version: &EngineVersion,
+    ) -> Result<Vec<HubEvent>, EngineError> {
+        self.prune_messages_at(fid, msg_type, txn_batch, version, &FarcasterTime::current())
+    }
+
+    fn prune_messages_at(
+        &mut self,
+        fid: u64,
+        msg_type: MessageType,
+        txn_batch: &mut RocksDbTransactionBatch,
+        version: &EngineVersion,
+        timestamp: &FarcasterTime,
     ) -> Result<Vec<HubEvent>, EngineError> {
         let (current_count, max_count) = self
             .stores
-            .get_usage(fid, msg_type, txn_batch)
+            .get_usage_at(fid, msg_type, txn_batch, timestamp)
             .map_err(|_| EngineError::UsageCountError)?;
 
         let events = match msg_type {
diff --git a/src/storage/store/stores.rs b/src/storage/store/stores.rs
index 450a57c..01bff07 100644
--- a/src/storage/store/stores.rs
+++ b/src/storage/store/stores.rs
@@ -403,6 +403,24 @@ impl Stores {
         engine_version: EngineVersion,
         count_borrowed_storage: bool,
         pending_events: &[OnChainEvent],
+    ) -> Result<StorageSlot, StoresError> {
+        self.get_storage_slot_for_fid_at(
+            fid,
+            engine_version,
+            count_borrowed_storage,
+            pending_events,
+            &FarcasterTime::current(),
+        )
+    }
+
+    /// The storage of `fid` that is in force at `timestamp`.
+    pub fn get_storage_slot_for_fid_at(
+        &self,
+        fid: u64,
+        engine_version: EngineVersion,
+        count_borrowed_storage: bool,
+        pending_events: &[OnChainEvent],
+        timestamp: &FarcasterTime,
     ) -> Result<StorageSlot, StoresError> {
         let lent_storage = StorageLendStore::get_lent_storage(&self.storage_lend_store, fid)
             .map_err(|err| StoresError::StoreError {
@@ -421,13 +439,14 @@ impl Stores {
         };
         let slot = self
             .onchain_event_store
-            .get_storage_slot_for_fid(
+            .get_storage_slot_for_fid_at(
                 fid,
                 self.network,
                 engine_version,
                 pending_events,
                 &lent_storage,
                 &borrowed_storage,
+                timestamp.to_unix_seconds(),
             )
             .map_err(|e| StoresError::OnchainEventError(e))?;
 
@@ -439,17 +458,28 @@ impl Stores {
         fid: u64,
         message_type: MessageType,
         txn_batch: &mut RocksDbTransactionBatch,
+    ) -> Result<(u32, u32), StoresError> {
+        self.get_usage_at(fid, message_type, txn_batch, &FarcasterTime::current())
+    }
+
+    /// The number of messages stored and the number allowed at `timestamp`. Which units count
+    /// depends on when they expire, so limits enforced on a block use the block's timestamp.
+    pub fn get_usage_at(
+        &self,
+        fid: u64,
+        message_type: MessageType,
+        txn_batch: &mut RocksDbTransactionBatch,
+        timestamp: &FarcasterTime,
     ) -> Result<(u32, u32), StoresError> {
         let store_type = Limits::message_type_to_store_type(message_type);
         let message_count = self.get_usage_by_store_type(fid, store_type, txn_batch)?;
         let count_borrowed_storage = store_type != StoreType::StorageLends;
-        // RPC/limit-enforcement path: max_messages is independent of invalidate_at, so the
-        // expiry-extension version gate does not affect the result here. Use the current version.
-        let slot = self.get_storage_slot_for_fid(
+        let slot = self.get_storage_slot_for_fid_at(
             fid,
-            EngineVersion::current(self.network),
+            EngineVersion::version_for(timestamp, self.network),
             count_borrowed_storage,
             &[],
+            timestamp,
         )?;
         let max_messages = self.store_limits.max_messages(&slot, store_type);
 
-- 
2.43.0


From a13b20b0e679ad1730652d54367a8881267195e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 09/20] fix: refuse a block whose events are not the ones its
 header commits to

---
 src/storage/store/block_engine.rs | 35 +++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index ba5d6f0..d07609e 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -2123,7 +2123,7 @@ impl BlockEngine {
         height: Height,
         timestamp: &FarcasterTime,
         version: EngineVersion,
-    ) -> Result<(), BlockEngineError> {
+    ) -> Result<Vec<BlockEvent>, BlockEngineError> {
         let now = std::time::Instant::now();
         // TODO(aditi): We probably only want to check this if we're in a test env (maybe only if the network is Devnet)
         // Validate that the trie is in a good place to start with
@@ -2180,7 +2180,7 @@ impl BlockEngine {
             all_hub_events.extend_from_slice(&hub_events);
         }
 
-        let (_block_events, computed_events_hash) =
+        let (block_events, computed_events_hash) =
             self.generate_block_events(height, timestamp, all_hub_events, txn_batch);
 
         if computed_events_hash != *events_hash {
@@ -2210,7 +2210,7 @@ impl BlockEngine {
         self.metrics
             .time_with_shard("replay_proposal_time", elapsed.as_millis() as u64);
 
-        Ok(())
+        Ok(block_events)
     }
 
     pub fn validate_state_change(
@@ -2239,22 +2239,39 @@ impl BlockEngine {
             version,
         );
 
-        if let Err(ref err) = proposal_result {
-            error!("State change validation failed: {}", err);
-        }
+        // The header only commits to the events by hash, and a block is stored with the events its
+        // proposer sent, so those have to be the ones the hash stands for.
+        let valid = match proposal_result {
+            Ok(block_events) => {
+                let same_events = block_events == shard_state_change.events;
+                if !same_events {
+                    warn!(
+                        shard_id = self.shard_id,
+                        expected_num_events = block_events.len(),
+                        actual_num_events = shard_state_change.events.len(),
+                        "Block events mismatch"
+                    );
+                }
+                same_events
+            }
+            Err(err) => {
+                error!("State change validation failed: {}", err);
+                false
+            }
+        };
 
         self.stores.trie.reload(&self.db).unwrap();
         let elapsed = now.elapsed();
         self.metrics
             .time_with_shard("validate_time", elapsed.as_millis() as u64);
 
-        if proposal_result.is_ok() {
+        if valid {
             self.metrics.count("validate.true", 1, vec![]);
         } else {
             self.metrics.count("validate.false", 1, vec![]);
         }
 
-        proposal_result.is_ok()
+        valid
     }
 
     pub fn commit_block(&mut self, block: &Block) {
@@ -2295,7 +2312,7 @@ impl BlockEngine {
                     error!("State change commit failed: {}", err);
                     panic!("State change commit failed: {}", err);
                 }
-                Ok(()) => {
+                Ok(_) => {
                     // The block is committed with the state it leads to: after a crash between
                     // the two, the height would be replayed on top of its own effects.
                     self.stores
-- 
2.43.0


From 00a2543ffcad510f516778ac1964867fdebc3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 10/20] fix: data shards take key messages as shard 0 decided
 them

---
 .../store/account/gasless_key_merge.rs        | 186 +++++++++++++-----
 src/storage/store/engine.rs                   |  41 +++-
 src/version/version.rs                        |   5 +
 3 files changed, 179 insertions(+), 53 deletions(-)

diff --git a/src/storage/store/account/gasless_key_merge.rs b/src/storage/store/account/gasless_key_merge.rs
index 3ccb4b7..c457bae 100644
--- a/src/storage/store/account/gasless_key_merge.rs
+++ b/src/storage/store/account/gasless_key_merge.rs
@@ -31,6 +31,18 @@ use crate::proto::{self, hub_event, message_data::Body, HubEvent, HubEventType};
 use crate::storage::db::{RocksDB, RocksDbTransactionBatch};
 use crate::storage::store::engine::MessageValidationError;
 
+/// How much of a key message's authority is checked against this node's own chain events.
+#[derive(Clone, Copy, PartialEq, Eq, Debug)]
+enum AuthorityCheck {
+    /// Everything: this is the admission path.
+    Full,
+    /// The account's own custody and signers, but not the requesting fid's custody.
+    AccountOnly,
+    /// Nothing: shard 0 has already decided the message. Chain events reach each shard on their
+    /// own schedule, so judging custody again here would let the replicas disagree with shard 0.
+    Settled,
+}
+
 /// Orchestrates the full KEY_ADD flow for NEYN-10573: metadata verification against the
 /// `requestFid`'s custody address, EIP-712 custody-signature recovery for the adding FID,
 /// conflict resolution against both the gasless-key index and the on-chain signer index,
@@ -79,6 +91,37 @@ pub fn merge_key_add(
     msg: &proto::Message,
     txn_batch: &mut RocksDbTransactionBatch,
     is_replay: bool,
+) -> Result<HubEvent, MessageValidationError> {
+    let authority = if is_replay {
+        AuthorityCheck::AccountOnly
+    } else {
+        AuthorityCheck::Full
+    };
+    apply_key_add(db, onchain_event_store, msg, txn_batch, authority)
+}
+
+/// Applies a KEY_ADD that shard 0 has decided, as its `BlockEvent` reports it.
+pub fn replay_settled_key_add(
+    db: &Arc<RocksDB>,
+    onchain_event_store: &OnchainEventStore,
+    msg: &proto::Message,
+    txn_batch: &mut RocksDbTransactionBatch,
+) -> Result<HubEvent, MessageValidationError> {
+    apply_key_add(
+        db,
+        onchain_event_store,
+        msg,
+        txn_batch,
+        AuthorityCheck::Settled,
+    )
+}
+
+fn apply_key_add(
+    db: &Arc<RocksDB>,
+    onchain_event_store: &OnchainEventStore,
+    msg: &proto::Message,
+    txn_batch: &mut RocksDbTransactionBatch,
+    authority: AuthorityCheck,
 ) -> Result<HubEvent, MessageValidationError> {
     let message_data = msg
         .data
@@ -119,7 +162,7 @@ pub fn merge_key_add(
         chain_id,
     )?;
 
-    if !is_replay {
+    if authority == AuthorityCheck::Full {
         let request_fid_event = onchain_event_store
             .get_id_register_event_by_fid(verified.request_fid, Some(txn_batch))
             .map_err(|_| MessageValidationError::MissingFid)?
@@ -133,40 +176,42 @@ pub fn merge_key_add(
         }
     }
 
-    // Step 5 (EIP-712 custody recovery for this FID's KeyAdd payload). The recovered
-    // address must match the custody address currently on file for `fid`.
-    let payload = KeyAddPayload {
-        fid,
-        key: &key_add_body.key,
-        key_type: key_add_body.key_type,
-        scopes: &key_add_body.scopes,
-        ttl: key_add_body.ttl,
-        nonce: key_add_body.nonce,
-        deadline: key_add_body.deadline,
-    };
-    let recovered =
-        recover_key_add_custody_address(&payload, &key_add_body.custody_signature, chain_id)?;
-    let this_fid_event = onchain_event_store
-        .get_id_register_event_by_fid(fid, Some(txn_batch))
-        .map_err(|_| MessageValidationError::MissingFid)?
-        .ok_or(MessageValidationError::MissingFid)?;
-    let this_fid_custody = match this_fid_event.body {
-        Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) => b,
-        _ => return Err(MessageValidationError::MissingFid),
-    };
-    if this_fid_custody.to.as_slice() != recovered.as_slice() {
-        return Err(ValidationError::InvalidSignature.into());
-    }
+    if authority != AuthorityCheck::Settled {
+        // Step 5 (EIP-712 custody recovery for this FID's KeyAdd payload). The recovered
+        // address must match the custody address currently on file for `fid`.
+        let payload = KeyAddPayload {
+            fid,
+            key: &key_add_body.key,
+            key_type: key_add_body.key_type,
+            scopes: &key_add_body.scopes,
+            ttl: key_add_body.ttl,
+            nonce: key_add_body.nonce,
+            deadline: key_add_body.deadline,
+        };
+        let recovered =
+            recover_key_add_custody_address(&payload, &key_add_body.custody_signature, chain_id)?;
+        let this_fid_event = onchain_event_store
+            .get_id_register_event_by_fid(fid, Some(txn_batch))
+            .map_err(|_| MessageValidationError::MissingFid)?
+            .ok_or(MessageValidationError::MissingFid)?;
+        let this_fid_custody = match this_fid_event.body {
+            Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) => b,
+            _ => return Err(MessageValidationError::MissingFid),
+        };
+        if this_fid_custody.to.as_slice() != recovered.as_slice() {
+            return Err(ValidationError::InvalidSignature.into());
+        }
 
-    // Step 8 (conflict resolution). On-chain first so a signer that was minted via L2 doesn't
-    // silently get shadowed by a gasless registration; this branch also short-circuits before
-    // the gasless reads below on that path. The same-FID on-chain collision stays a reject —
-    // resubmission applies only to the gasless store (NEYN-10624).
-    let existing_onchain = onchain_event_store
-        .get_active_signer(fid, key_add_body.key.clone(), Some(txn_batch))
-        .map_err(|_| MessageValidationError::MissingSigner)?;
-    if existing_onchain.is_some() {
-        return Err(ValidationError::KeyAlreadyRegisteredOnchain.into());
+        // Step 8 (conflict resolution). On-chain first so a signer that was minted via L2 doesn't
+        // silently get shadowed by a gasless registration; this branch also short-circuits before
+        // the gasless reads below on that path. The same-FID on-chain collision stays a reject —
+        // resubmission applies only to the gasless store (NEYN-10624).
+        let existing_onchain = onchain_event_store
+            .get_active_signer(fid, key_add_body.key.clone(), Some(txn_batch))
+            .map_err(|_| MessageValidationError::MissingSigner)?;
+        if existing_onchain.is_some() {
+            return Err(ValidationError::KeyAlreadyRegisteredOnchain.into());
+        }
     }
 
     // Gasless by-public-key index is authoritative for "which FID (if any) currently claims
@@ -307,6 +352,38 @@ pub fn merge_key_remove(
     onchain_event_store: &OnchainEventStore,
     msg: &proto::Message,
     txn_batch: &mut RocksDbTransactionBatch,
+) -> Result<HubEvent, MessageValidationError> {
+    apply_key_remove(
+        db,
+        onchain_event_store,
+        msg,
+        txn_batch,
+        AuthorityCheck::Full,
+    )
+}
+
+/// Applies a KEY_REMOVE that shard 0 has decided, as its `BlockEvent` reports it.
+pub fn replay_settled_key_remove(
+    db: &Arc<RocksDB>,
+    onchain_event_store: &OnchainEventStore,
+    msg: &proto::Message,
+    txn_batch: &mut RocksDbTransactionBatch,
+) -> Result<HubEvent, MessageValidationError> {
+    apply_key_remove(
+        db,
+        onchain_event_store,
+        msg,
+        txn_batch,
+        AuthorityCheck::Settled,
+    )
+}
+
+fn apply_key_remove(
+    db: &Arc<RocksDB>,
+    onchain_event_store: &OnchainEventStore,
+    msg: &proto::Message,
+    txn_batch: &mut RocksDbTransactionBatch,
+    authority: AuthorityCheck,
 ) -> Result<HubEvent, MessageValidationError> {
     let message_data = msg
         .data
@@ -336,24 +413,29 @@ pub fn merge_key_remove(
     let sig_type = KeyRemoveSignatureType::try_from(key_remove_body.signature_type)?;
     match sig_type {
         KeyRemoveSignatureType::Custody => {
-            let payload = KeyRemovePayload {
-                fid,
-                key: &key_remove_body.key,
-                nonce: key_remove_body.nonce,
-                deadline: key_remove_body.deadline,
-            };
-            let recovered =
-                recover_key_remove_custody_address(&payload, &key_remove_body.signature, chain_id)?;
-            let this_fid_event = onchain_event_store
-                .get_id_register_event_by_fid(fid, Some(txn_batch))
-                .map_err(|_| MessageValidationError::MissingFid)?
-                .ok_or(MessageValidationError::MissingFid)?;
-            let this_fid_custody = match this_fid_event.body {
-                Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) => b,
-                _ => return Err(MessageValidationError::MissingFid),
-            };
-            if this_fid_custody.to.as_slice() != recovered.as_slice() {
-                return Err(ValidationError::InvalidSignature.into());
+            if authority != AuthorityCheck::Settled {
+                let payload = KeyRemovePayload {
+                    fid,
+                    key: &key_remove_body.key,
+                    nonce: key_remove_body.nonce,
+                    deadline: key_remove_body.deadline,
+                };
+                let recovered = recover_key_remove_custody_address(
+                    &payload,
+                    &key_remove_body.signature,
+                    chain_id,
+                )?;
+                let this_fid_event = onchain_event_store
+                    .get_id_register_event_by_fid(fid, Some(txn_batch))
+                    .map_err(|_| MessageValidationError::MissingFid)?
+                    .ok_or(MessageValidationError::MissingFid)?;
+                let this_fid_custody = match this_fid_event.body {
+                    Some(proto::on_chain_event::Body::IdRegisterEventBody(b)) => b,
+                    _ => return Err(MessageValidationError::MissingFid),
+                };
+                if this_fid_custody.to.as_slice() != recovered.as_slice() {
+                    return Err(ValidationError::InvalidSignature.into());
+                }
             }
             check_and_set_user_nonce(db, txn_batch, fid, key_remove_body.nonce)?;
         }
diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index e32b0b0..6abe804 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -174,6 +174,9 @@ enum ReplayMerge {
     /// Supersede whatever the local store holds for the message's logical key, without comparing
     /// timestamps: shard 0's consensus order is the last write. Reserved for BlockEvent replay.
     Forced,
+    /// Apply a key message as shard 0 decided it, without judging its custody signature again by
+    /// this shard's own chain events, which may be ahead of or behind shard 0's.
+    SettledKey,
 }
 
 pub struct ShardEngine {
@@ -776,7 +779,16 @@ impl ShardEngine {
                         (Some(ProtocolFeature::StorageLending), ReplayMerge::Normal)
                     }
                     MessageType::KeyAdd | MessageType::KeyRemove => {
-                        (Some(ProtocolFeature::GaslessSigners), ReplayMerge::Normal)
+                        let version = EngineVersion::version_for(
+                            &FarcasterTime::new(block_event.block_timestamp()),
+                            self.network,
+                        );
+                        let strategy = if version.is_enabled(ProtocolFeature::SettledKeyReplay) {
+                            ReplayMerge::SettledKey
+                        } else {
+                            ReplayMerge::Normal
+                        };
+                        (Some(ProtocolFeature::GaslessSigners), strategy)
                     }
                     MessageType::VerificationAddEthAddress | MessageType::VerificationRemove => (
                         Some(ProtocolFeature::VerificationsOnShardZero),
@@ -819,6 +831,9 @@ impl ShardEngine {
                 }
                 let mut hub_events = match merge_strategy {
                     ReplayMerge::Forced => self.merge_replayed_verification(message, txn_batch)?,
+                    ReplayMerge::SettledKey => {
+                        vec![self.merge_settled_key(message, msg_type, txn_batch)?]
+                    }
                     ReplayMerge::Normal => {
                         self.merge_message(message, txn_batch, channel_messages_enabled)?
                     }
@@ -1917,6 +1932,30 @@ impl ShardEngine {
         Ok(event)
     }
 
+    /// Replays a KEY_ADD / KEY_REMOVE that shard 0 has decided.
+    fn merge_settled_key(
+        &self,
+        message: &proto::Message,
+        msg_type: MessageType,
+        txn_batch: &mut RocksDbTransactionBatch,
+    ) -> Result<proto::HubEvent, MessageValidationError> {
+        if msg_type == MessageType::KeyAdd {
+            crate::storage::store::account::replay_settled_key_add(
+                &self.db,
+                &self.stores.onchain_event_store,
+                message,
+                txn_batch,
+            )
+        } else {
+            crate::storage::store::account::replay_settled_key_remove(
+                &self.db,
+                &self.stores.onchain_event_store,
+                message,
+                txn_batch,
+            )
+        }
+    }
+
     fn merge_replayed_verification(
         &self,
         message: &proto::Message,
diff --git a/src/version/version.rs b/src/version/version.rs
index 9d801cd..f2f4f57 100644
--- a/src/version/version.rs
+++ b/src/version/version.rs
@@ -61,6 +61,7 @@ pub enum ProtocolFeature {
     VerificationsOnShardZero,
     ChannelFollows,
     IncreaseEmbedLimitForAllUsers,
+    SettledKeyReplay,
 }
 
 pub struct VersionSchedule {
@@ -408,6 +409,10 @@ impl EngineVersion {
             // no channel behavior, so it is not gated on the registrar. Do not read a
             // scheduled V20 as a violation of this rule.
             ProtocolFeature::ChannelFollows => self >= &EngineVersion::V21,
+            // Data shards take KEY_ADD / KEY_REMOVE as shard 0 decided them. Before this, each
+            // shard judged the custody signature again by its own chain events, and a shard whose
+            // chain events had moved on kept a key that shard 0 had removed.
+            ProtocolFeature::SettledKeyReplay => self >= &EngineVersion::V21,
         }
     }
 
-- 
2.43.0


From fcc60f982e726ad526b2ff00f6a667d370673b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 11/20] fix: refuse key messages whose deadline has passed

---
 src/core/validations/error.rs     |  2 ++
 src/storage/store/block_engine.rs | 19 ++++++++++++++++---
 src/version/version.rs            |  3 +++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/validations/error.rs b/src/core/validations/error.rs
index 097f7a4..bf38ae2 100644
--- a/src/core/validations/error.rs
+++ b/src/core/validations/error.rs
@@ -176,6 +176,8 @@ pub enum ValidationError {
     InvalidTtl(u32),
     #[error("deadline is missing")]
     MissingDeadline,
+    #[error("deadline has expired")]
+    DeadlineExpired,
     #[error("metadata is missing")]
     MissingMetadata,
     #[error("invalid signature type")]
diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index d07609e..45de03b 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -1092,9 +1092,22 @@ impl BlockEngine {
             // engine level: static body validation (key length, scopes, ttl bound, etc.) ran
             // upstream in `validate_message`, and state-dependent checks (nonce CAS, custody
             // recovery, conflict resolution) live in the merge helpers themselves.
-            crate::proto::message_data::Body::KeyAddBody(_)
-            | crate::proto::message_data::Body::KeyRemoveBody(_)
-                if version.is_enabled(ProtocolFeature::GaslessSigners) => {}
+            //
+            // The signature's deadline is the exception. The message's own timestamp is chosen by
+            // whoever submits it, so only the block clock can say that the deadline has passed.
+            crate::proto::message_data::Body::KeyAddBody(proto::KeyAddBody {
+                deadline, ..
+            })
+            | crate::proto::message_data::Body::KeyRemoveBody(proto::KeyRemoveBody {
+                deadline,
+                ..
+            }) if version.is_enabled(ProtocolFeature::GaslessSigners) => {
+                if version.is_enabled(ProtocolFeature::KeyDeadlines)
+                    && u64::from(*deadline) < timestamp.to_u64()
+                {
+                    return Err(validations::error::ValidationError::DeadlineExpired.into());
+                }
+            }
             body @ (crate::proto::message_data::Body::VerificationAddAddressBody(_)
             | crate::proto::message_data::Body::VerificationRemoveBody(_))
                 if version.is_enabled(ProtocolFeature::VerificationsOnShardZero) =>
diff --git a/src/version/version.rs b/src/version/version.rs
index f2f4f57..7e0ac22 100644
--- a/src/version/version.rs
+++ b/src/version/version.rs
@@ -62,6 +62,7 @@ pub enum ProtocolFeature {
     ChannelFollows,
     IncreaseEmbedLimitForAllUsers,
     SettledKeyReplay,
+    KeyDeadlines,
 }
 
 pub struct VersionSchedule {
@@ -413,6 +414,8 @@ impl EngineVersion {
             // shard judged the custody signature again by its own chain events, and a shard whose
             // chain events had moved on kept a key that shard 0 had removed.
             ProtocolFeature::SettledKeyReplay => self >= &EngineVersion::V21,
+            // Shard 0 refuses a KEY_ADD / KEY_REMOVE whose signature's deadline has passed.
+            ProtocolFeature::KeyDeadlines => self >= &EngineVersion::V21,
         }
     }
 
-- 
2.43.0


From 2d923dd4db5294eb5a56ee1702e6e70b752a1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 12/20] fix: count a pending rent event once

---
 src/storage/store/account/onchain_event_store.rs | 11 ++++++++++-
 src/version/version.rs                           |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/storage/store/account/onchain_event_store.rs b/src/storage/store/account/onchain_event_store.rs
index 4c0b78b..c60f0f4 100644
--- a/src/storage/store/account/onchain_event_store.rs
+++ b/src/storage/store/account/onchain_event_store.rs
@@ -16,7 +16,7 @@ use crate::storage::util::increment_vec_u8;
 use crate::version::version::{EngineVersion, ProtocolFeature};
 use alloy_primitives::keccak256;
 use prost::{DecodeError, Message};
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::sync::Arc;
 use thiserror::Error;
 use tracing::warn;
@@ -1390,8 +1390,17 @@ impl OnchainEventStore {
             );
         }
         // Now, virtually merge any pending rent events from the current transaction
+        let only_distinct = engine_version.is_enabled(ProtocolFeature::DistinctPendingRents);
+        let mut counted = HashSet::new();
         for event in pending_events {
             if event.fid == fid && event.r#type() == OnChainEventType::EventTypeStorageRent {
+                // A pending rent that is already stored, or that is pending twice, buys nothing.
+                if only_distinct
+                    && (self.exists(event)?
+                        || !counted.insert(make_onchain_event_primary_key(event)))
+                {
+                    continue;
+                }
                 storage_slot.merge_at(
                     &StorageSlot::from_event(event, network, engine_version)?,
                     unix_seconds,
diff --git a/src/version/version.rs b/src/version/version.rs
index 7e0ac22..31b80da 100644
--- a/src/version/version.rs
+++ b/src/version/version.rs
@@ -63,6 +63,7 @@ pub enum ProtocolFeature {
     IncreaseEmbedLimitForAllUsers,
     SettledKeyReplay,
     KeyDeadlines,
+    DistinctPendingRents,
 }
 
 pub struct VersionSchedule {
@@ -416,6 +417,8 @@ impl EngineVersion {
             ProtocolFeature::SettledKeyReplay => self >= &EngineVersion::V21,
             // Shard 0 refuses a KEY_ADD / KEY_REMOVE whose signature's deadline has passed.
             ProtocolFeature::KeyDeadlines => self >= &EngineVersion::V21,
+            // A rent event counts once towards an account's storage however often it was submitted.
+            ProtocolFeature::DistinctPendingRents => self >= &EngineVersion::V21,
         }
     }
 
-- 
2.43.0


From 88c650522352ce2c1d6abab14790027434d51e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 13/20] fix: do not prune messages that the same block has
 replaced

---
 src/storage/store/account/store.rs | 20 +++++++++++++++++++-
 src/storage/store/engine.rs        | 13 +++++++------
 src/version/version.rs             |  3 +++
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/storage/store/account/store.rs b/src/storage/store/account/store.rs
index a5c04da..c88d18e 100644
--- a/src/storage/store/account/store.rs
+++ b/src/storage/store/account/store.rs
@@ -1205,6 +1205,20 @@ impl<T: StoreDef + Clone> Store<T> {
         current_count: u32,
         max_count: u32,
         txn: &mut RocksDbTransactionBatch,
+    ) -> Result<Vec<HubEvent>, HubError> {
+        self.prune_messages_with(fid, current_count, max_count, txn, false)
+    }
+
+    /// Prunes the oldest messages down to `max_count`. With `only_live`, those that `txn` has
+    /// already deleted are left alone: pruning one of them again would take the by-key entry of
+    /// whatever replaced it, and would count as room made when it makes none.
+    pub fn prune_messages_with(
+        &self,
+        fid: u64,
+        current_count: u32,
+        max_count: u32,
+        txn: &mut RocksDbTransactionBatch,
+        only_live: bool,
     ) -> Result<Vec<HubEvent>, HubError> {
         if self.store_def.requires_consensus_order_slot_merge() {
             return Err(HubError::validation_failure(
@@ -1224,11 +1238,15 @@ impl<T: StoreDef + Clone> Store<T> {
             Some(prefix.to_vec()),
             Some(increment_vec_u8(prefix)),
             &PageOptions::default(),
-            |_key, value| {
+            |key, value| {
                 if count <= max_count {
                     return Ok(true); // Stop the iteration, nothing left to prune
                 }
 
+                if only_live && txn.batch.get(key) == Some(&None) {
+                    return Ok(false); // Already gone, not one of the messages to prune
+                }
+
                 // Value is a message, so try to decode it
                 let message = message_decode(value)?;
                 match self.prune_message(&message, txn)? {
diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 6abe804..53cf1e3 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2007,38 +2007,39 @@ impl ShardEngine {
             .get_usage_at(fid, msg_type, txn_batch, timestamp)
             .map_err(|_| EngineError::UsageCountError)?;
 
+        let only_live = version.is_enabled(ProtocolFeature::PruneOnlyLiveMessages);
         let events = match msg_type {
             MessageType::CastAdd | MessageType::CastRemove => self
                 .stores
                 .cast_store
-                .prune_messages(fid, current_count, max_count, txn_batch)
+                .prune_messages_with(fid, current_count, max_count, txn_batch, only_live)
                 .map_err(|e| EngineError::StoreError(e)),
             MessageType::LinkAdd | MessageType::LinkRemove | MessageType::LinkCompactState => self
                 .stores
                 .link_store
-                .prune_messages(fid, current_count, max_count, txn_batch)
+                .prune_messages_with(fid, current_count, max_count, txn_batch, only_live)
                 .map_err(|e| EngineError::StoreError(e)),
             MessageType::ReactionAdd | MessageType::ReactionRemove => self
                 .stores
                 .reaction_store
-                .prune_messages(fid, current_count, max_count, txn_batch)
+                .prune_messages_with(fid, current_count, max_count, txn_batch, only_live)
                 .map_err(|e| EngineError::StoreError(e)),
             MessageType::UserDataAdd => self
                 .stores
                 .user_data_store
-                .prune_messages(fid, current_count, max_count, txn_batch)
+                .prune_messages_with(fid, current_count, max_count, txn_batch, only_live)
                 .map_err(|e| EngineError::StoreError(e)),
             MessageType::VerificationAddEthAddress | MessageType::VerificationRemove => self
                 .stores
                 .verification_store
-                .prune_messages(fid, current_count, max_count, txn_batch)
+                .prune_messages_with(fid, current_count, max_count, txn_batch, only_live)
                 .map_err(|e| EngineError::StoreError(e)),
             MessageType::UsernameProof => {
                 // Usernameproof pruning was missing before this version
                 if version.is_enabled(ProtocolFeature::EnsValidation) {
                     let store = &self.stores.username_proof_store;
                     store
-                        .prune_messages(fid, current_count, max_count, txn_batch)
+                        .prune_messages_with(fid, current_count, max_count, txn_batch, only_live)
                         .map_err(|e| EngineError::StoreError(e))
                 } else {
                     Ok(vec![])
diff --git a/src/version/version.rs b/src/version/version.rs
index 31b80da..b7ff078 100644
--- a/src/version/version.rs
+++ b/src/version/version.rs
@@ -64,6 +64,7 @@ pub enum ProtocolFeature {
     SettledKeyReplay,
     KeyDeadlines,
     DistinctPendingRents,
+    PruneOnlyLiveMessages,
 }
 
 pub struct VersionSchedule {
@@ -419,6 +420,8 @@ impl EngineVersion {
             ProtocolFeature::KeyDeadlines => self >= &EngineVersion::V21,
             // A rent event counts once towards an account's storage however often it was submitted.
             ProtocolFeature::DistinctPendingRents => self >= &EngineVersion::V21,
+            // Pruning leaves alone the messages that the same block has already replaced.
+            ProtocolFeature::PruneOnlyLiveMessages => self >= &EngineVersion::V21,
         }
     }
 
-- 
2.43.0


From 8967a83b25f47e27e11fe3c84a853776d63a5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 14/20] fix: count a kind of message the same block has emptied
 as none

---
 src/storage/store/block_engine.rs |  2 +-
 src/storage/store/stores.rs       | 41 ++++++++++++++++---------------
 src/storage/trie/merkle_trie.rs   | 15 +++++++++++
 src/version/version.rs            |  3 +++
 4 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index 45de03b..3ec161c 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -669,7 +669,7 @@ impl BlockEngine {
             let count = self
                 .stores
                 .trie
-                .get_count(
+                .get_live_count(
                     &self.stores.db,
                     txn_batch,
                     &TrieKey::for_message_type(fid, msg_type.into_u8()),
diff --git a/src/storage/store/stores.rs b/src/storage/store/stores.rs
index 01bff07..de6afbf 100644
--- a/src/storage/store/stores.rs
+++ b/src/storage/store/stores.rs
@@ -24,7 +24,7 @@ use crate::storage::store::shard::ShardStore;
 use crate::storage::trie::merkle_trie;
 use crate::storage::trie::merkle_trie::TrieKey;
 use crate::utils::statsd_wrapper::StatsdClientWrapper;
-use crate::version::version::EngineVersion;
+use crate::version::version::{EngineVersion, ProtocolFeature};
 use std::sync::Arc;
 use std::time::Duration;
 use thiserror::Error;
@@ -472,15 +472,16 @@ impl Stores {
         timestamp: &FarcasterTime,
     ) -> Result<(u32, u32), StoresError> {
         let store_type = Limits::message_type_to_store_type(message_type);
-        let message_count = self.get_usage_by_store_type(fid, store_type, txn_batch)?;
-        let count_borrowed_storage = store_type != StoreType::StorageLends;
-        let slot = self.get_storage_slot_for_fid_at(
+        let version = EngineVersion::version_for(timestamp, self.network);
+        let message_count = self.get_usage_by_store_type(
             fid,
-            EngineVersion::version_for(timestamp, self.network),
-            count_borrowed_storage,
-            &[],
-            timestamp,
+            store_type,
+            txn_batch,
+            version.is_enabled(ProtocolFeature::CountOnlyLiveMessages),
         )?;
+        let count_borrowed_storage = store_type != StoreType::StorageLends;
+        let slot =
+            self.get_storage_slot_for_fid_at(fid, version, count_borrowed_storage, &[], timestamp)?;
         let max_messages = self.store_limits.max_messages(&slot, store_type);
 
         Ok((message_count, max_messages))
@@ -492,20 +493,20 @@ impl Stores {
         fid: u64,
         store_type: StoreType,
         txn_batch: &mut RocksDbTransactionBatch,
+        only_live: bool,
     ) -> Result<u32, StoresError> {
         let mut total_count = 0;
         for each_message_type in Limits::store_type_to_message_types(store_type) {
-            let count = self
-                .trie
-                .get_count(
-                    &self.db,
-                    txn_batch,
-                    &TrieKey::for_message_type(fid, each_message_type.into_u8()),
-                )
-                .map_err(|e| StoresError::StoreError {
-                    inner: HubError::internal_db_error(&format!("Trie error: {}", e)),
-                    hash: TrieKey::for_message_type(fid, each_message_type.into_u8()).to_vec(),
-                })? as u32;
+            let key = TrieKey::for_message_type(fid, each_message_type.into_u8());
+            let count = if only_live {
+                self.trie.get_live_count(&self.db, txn_batch, &key)
+            } else {
+                self.trie.get_count(&self.db, txn_batch, &key)
+            }
+            .map_err(|e| StoresError::StoreError {
+                inner: HubError::internal_db_error(&format!("Trie error: {}", e)),
+                hash: key.to_vec(),
+            })? as u32;
             total_count += count;
         }
         Ok(total_count)
@@ -575,7 +576,7 @@ impl Stores {
             } else {
                 net_slot.clone()
             };
-            let used = self.get_usage_by_store_type(fid, store_type, txn_batch)?;
+            let used = self.get_usage_by_store_type(fid, store_type, txn_batch, true)?;
             // TODO(aditi): Should subtract 1 here for storage lends because we require keeping 1 storage unit available for revoking lent storage
             let max_messages = self.store_limits.max_messages(&slot, store_type);
             let name = match store_type {
diff --git a/src/storage/trie/merkle_trie.rs b/src/storage/trie/merkle_trie.rs
index e7b10a0..e477da9 100644
--- a/src/storage/trie/merkle_trie.rs
+++ b/src/storage/trie/merkle_trie.rs
@@ -438,6 +438,21 @@ impl MerkleTrie {
             .unwrap_or(0))
     }
 
+    /// Like `get_count`, but a branch that `txn_batch` has emptied counts as empty. `get_count`
+    /// reads it as it was before the batch.
+    pub fn get_live_count(
+        &self,
+        db: &RocksDB,
+        txn_batch: &RocksDbTransactionBatch,
+        prefix: &[u8],
+    ) -> Result<u64, TrieError> {
+        let node_key = TrieNode::make_primary_key(&expand_nibbles(prefix), None);
+        if txn_batch.batch.get(&node_key) == Some(&None) {
+            return Ok(0);
+        }
+        self.get_count(db, txn_batch, prefix)
+    }
+
     pub fn root_hash(&self) -> Result<Vec<u8>, TrieError> {
         if let Some(root) = self.root.as_ref() {
             Ok(root.hash())
diff --git a/src/version/version.rs b/src/version/version.rs
index b7ff078..0e4cec5 100644
--- a/src/version/version.rs
+++ b/src/version/version.rs
@@ -65,6 +65,7 @@ pub enum ProtocolFeature {
     KeyDeadlines,
     DistinctPendingRents,
     PruneOnlyLiveMessages,
+    CountOnlyLiveMessages,
 }
 
 pub struct VersionSchedule {
@@ -422,6 +423,8 @@ impl EngineVersion {
             ProtocolFeature::DistinctPendingRents => self >= &EngineVersion::V21,
             // Pruning leaves alone the messages that the same block has already replaced.
             ProtocolFeature::PruneOnlyLiveMessages => self >= &EngineVersion::V21,
+            // A kind of message whose last row the same block has removed counts as none.
+            ProtocolFeature::CountOnlyLiveMessages => self >= &EngineVersion::V21,
         }
     }
 
-- 
2.43.0


From 32a06749b4ea85848aaef85dd5b3fb39a51c2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:23 +0000
Subject: [PATCH 15/20] fix: keep a trie usable after its last key is gone

---
 src/storage/trie/merkle_trie.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/merkle_trie.rs b/src/storage/trie/merkle_trie.rs
index e477da9..468ad91 100644
--- a/src/storage/trie/merkle_trie.rs
+++ b/src/storage/trie/merkle_trie.rs
@@ -292,7 +292,8 @@ impl MerkleTrie {
                 self.root.replace(replacement_root);
                 Ok(())
             }
-            None => Err(TrieError::UnableToReloadRoot),
+            // The last key is gone, and its root with it
+            None => self.initialize(db),
         }
     }
 
-- 
2.43.0


From ac079952b1e7ccd139f7bbf7460d59955c016311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 16/20] fix: find where pruning stops after earlier blocks are
 gone

The first block at or after a time was looked up through an index whose
entries outlive the blocks they name. When blocks are kept for less time
than events, the block found for the event cutoff had been pruned, the
lookup failed, and no event was pruned any more. The height is now read
from the key.
---
 src/storage/db/rocksdb.rs  | 18 ++++++++++++++----
 src/storage/store/block.rs | 20 +++++++-------------
 src/storage/store/shard.rs | 20 +++++++-------------
 3 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/storage/db/rocksdb.rs b/src/storage/db/rocksdb.rs
index b9c13a4..755d348 100644
--- a/src/storage/db/rocksdb.rs
+++ b/src/storage/db/rocksdb.rs
@@ -707,9 +707,9 @@ impl RocksDB {
         Ok(count)
     }
 
-    // Returns finds the first key with the prefix index_prefix after start,
-    // using the value to index into the db, returning the value.
-    pub fn get_next_by_index(
+    // Finds the first key with the prefix index_prefix after start, returning the
+    // primary key it holds. The row of that primary key may since have been pruned.
+    pub fn get_next_primary_key(
         &self,
         index_prefix: Vec<u8>,
         start: Vec<u8>,
@@ -728,7 +728,17 @@ impl RocksDB {
                 Ok(true) // Stop iterating after the first key
             },
         )?;
-        primary_key
+        Ok(primary_key)
+    }
+
+    // Returns finds the first key with the prefix index_prefix after start,
+    // using the value to index into the db, returning the value.
+    pub fn get_next_by_index(
+        &self,
+        index_prefix: Vec<u8>,
+        start: Vec<u8>,
+    ) -> Result<Option<Vec<u8>>, HubError> {
+        self.get_next_primary_key(index_prefix, start)?
             .map(|primary_key| {
                 self.get(&primary_key)
                     .map_err(|e| HubError::from(e))?
diff --git a/src/storage/store/block.rs b/src/storage/store/block.rs
index f14e2ec..e3f43a9 100644
--- a/src/storage/store/block.rs
+++ b/src/storage/store/block.rs
@@ -302,20 +302,14 @@ impl BlockStore {
         let shard_index = 0; // Block store uses shard index 0.
         let timestamp_index_key = make_block_timestamp_index(shard_index, timestamp);
         self.db
-            .get_next_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
+            .get_next_primary_key(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
             .map_err(|_| BlockStorageError::TooManyBlocksInResult)? // TODO: Return the right error
-            .map(|bytes| {
-                let block = Block::decode(bytes.as_slice())
-                    .map_err(|e| BlockStorageError::DecodeError(e))?;
-                let header = block
-                    .header
-                    .as_ref()
-                    .ok_or(BlockStorageError::BlockMissingHeader)?;
-                let height = header
-                    .height
-                    .as_ref()
-                    .ok_or(BlockStorageError::BlockMissingHeight)?;
-                Ok(height.block_number)
+            // The height is read from the key, since the row itself may already have been pruned.
+            .map(|primary_key| {
+                let height = primary_key.get(1..).and_then(|h| h.try_into().ok());
+                height
+                    .map(u64::from_be_bytes)
+                    .ok_or(BlockStorageError::BlockMissingHeight)
             })
             .transpose()
     }
diff --git a/src/storage/store/shard.rs b/src/storage/store/shard.rs
index 4fde1c7..6e23a7c 100644
--- a/src/storage/store/shard.rs
+++ b/src/storage/store/shard.rs
@@ -316,20 +316,14 @@ impl ShardStore {
     ) -> Result<Option<u64>, ShardStorageError> {
         let timestamp_index_key = make_block_timestamp_index(self.shard_id, timestamp);
         self.db
-            .get_next_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
+            .get_next_primary_key(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
             .map_err(|_| ShardStorageError::TooManyShardsInResult)? // TODO: Return the right error
-            .map(|bytes| {
-                let shard = ShardChunk::decode(bytes.as_slice())
-                    .map_err(|e| ShardStorageError::DecodeError(e))?;
-                let header = shard
-                    .header
-                    .as_ref()
-                    .ok_or(ShardStorageError::ShardMissingHeader)?;
-                let height = header
-                    .height
-                    .as_ref()
-                    .ok_or(ShardStorageError::ShardMissingHeight)?;
-                Ok(height.block_number)
+            // The height is read from the key, since the row itself may already have been pruned.
+            .map(|primary_key| {
+                let height = primary_key.get(1..).and_then(|h| h.try_into().ok());
+                height
+                    .map(u64::from_be_bytes)
+                    .ok_or(ShardStorageError::ShardMissingHeight)
             })
             .transpose()
     }
-- 
2.43.0


From f3b1a960df2dfd3f8d665cea9652f1b825ee51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:14 +0000
Subject: [PATCH 17/20] fix: refuse a user message without data instead of
 panicking in the mempool

A peer can gossip a message whose data is absent or does not decode; building
its mempool key hit todo!() and ended the mempool task.
---
 src/mempool/mempool.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index b5f11a4..8ab88c6 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -924,6 +924,13 @@ impl Mempool {
         message: MempoolMessage,
         source: MempoolSource,
     ) -> Result<(), HubError> {
+        if let MempoolMessage::UserMessage(user_msg) = &message {
+            // Peers can gossip a message whose data is missing or does not decode
+            if user_msg.data.is_none() {
+                return Err(HubError::validation_failure("message data is missing"));
+            }
+        }
+
         let shard_ids = self.read_node_mempool.route_mempool_message(&message);
 
         let mut errors = vec![];
-- 
2.43.0


From 8123389ac55473dd40ff828c1bd93f4c0ef6b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 18/20] fix: apply storage changes to rate limits even when the
 shard's pool is empty

After a restart the pool of shard 0 may never have held a message when a loan
or rent is decided there; the account's rate limit then stayed at its old size.
---
 src/mempool/mempool.rs | 96 +++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index 8ab88c6..c6ae2f0 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -1019,61 +1019,61 @@ impl Mempool {
     }
 
     fn remove_committed_txns(&mut self, height: Height, transactions: &Vec<Transaction>) {
-        if let Some(mempool) = self.messages.get_mut(&height.shard_index) {
-            for transaction in transactions {
-                for user_message in &transaction.user_messages {
-                    let key = user_message.mempool_key();
-                    mempool.remove(&key);
-                    if let Some(data) = &user_message.data {
-                        if let Some(proto::message_data::Body::LendStorageBody(lend_storage)) =
-                            &data.body
-                        {
-                            self.live_at_rate_limits
-                                .invalidate_rate_limiter_for_fid(data.fid);
-                            self.live_at_rate_limits
-                                .invalidate_rate_limiter_for_fid(lend_storage.to_fid);
-                            if let Some(rate_limits) = &mut self.rate_limits {
-                                rate_limits.invalidate_rate_limiter_for_fid(data.fid);
-                                rate_limits.invalidate_rate_limiter_for_fid(lend_storage.to_fid);
-                            }
+        // Storage changes must reach the rate limits even if nothing was ever queued for this shard
+        let mempool = self.messages.entry(height.shard_index).or_default();
+        for transaction in transactions {
+            for user_message in &transaction.user_messages {
+                let key = user_message.mempool_key();
+                mempool.remove(&key);
+                if let Some(data) = &user_message.data {
+                    if let Some(proto::message_data::Body::LendStorageBody(lend_storage)) =
+                        &data.body
+                    {
+                        self.live_at_rate_limits
+                            .invalidate_rate_limiter_for_fid(data.fid);
+                        self.live_at_rate_limits
+                            .invalidate_rate_limiter_for_fid(lend_storage.to_fid);
+                        if let Some(rate_limits) = &mut self.rate_limits {
+                            rate_limits.invalidate_rate_limiter_for_fid(data.fid);
+                            rate_limits.invalidate_rate_limiter_for_fid(lend_storage.to_fid);
                         }
                     }
-                    if is_live_at(user_message) {
-                        let index_key = (height.shard_index, user_message.fid());
-                        if self
-                            .live_at_messages_by_fid
-                            .get(&index_key)
-                            .is_some_and(|indexed_key| indexed_key == &key)
-                        {
-                            self.live_at_messages_by_fid.remove(&index_key);
-                        }
+                }
+                if is_live_at(user_message) {
+                    let index_key = (height.shard_index, user_message.fid());
+                    if self
+                        .live_at_messages_by_fid
+                        .get(&index_key)
+                        .is_some_and(|indexed_key| indexed_key == &key)
+                    {
+                        self.live_at_messages_by_fid.remove(&index_key);
                     }
-                    self.statsd_client.count_with_shard(
-                        height.shard_index,
-                        "mempool.remove.success",
-                        1,
-                        vec![],
-                    );
                 }
-                for system_message in &transaction.system_messages {
-                    mempool.remove(&system_message.mempool_key());
-                    if let Some(onchain_event) = &system_message.on_chain_event {
-                        if onchain_event.r#type() == OnChainEventType::EventTypeStorageRent {
-                            // If the user buys more storage, we should bump their rate limit
-                            if let Some(rate_limits) = &mut self.rate_limits {
-                                rate_limits.invalidate_rate_limiter_for_fid(onchain_event.fid);
-                            }
-                            self.live_at_rate_limits
-                                .invalidate_rate_limiter_for_fid(onchain_event.fid);
+                self.statsd_client.count_with_shard(
+                    height.shard_index,
+                    "mempool.remove.success",
+                    1,
+                    vec![],
+                );
+            }
+            for system_message in &transaction.system_messages {
+                mempool.remove(&system_message.mempool_key());
+                if let Some(onchain_event) = &system_message.on_chain_event {
+                    if onchain_event.r#type() == OnChainEventType::EventTypeStorageRent {
+                        // If the user buys more storage, we should bump their rate limit
+                        if let Some(rate_limits) = &mut self.rate_limits {
+                            rate_limits.invalidate_rate_limiter_for_fid(onchain_event.fid);
                         }
+                        self.live_at_rate_limits
+                            .invalidate_rate_limiter_for_fid(onchain_event.fid);
                     }
-                    self.statsd_client.count_with_shard(
-                        height.shard_index,
-                        "mempool.remove.success",
-                        1,
-                        vec![],
-                    );
                 }
+                self.statsd_client.count_with_shard(
+                    height.shard_index,
+                    "mempool.remove.success",
+                    1,
+                    vec![],
+                );
             }
         }
     }
-- 
2.43.0


From fc650b27a406e07eef6b4d79647405d1c8f1bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 19/20] fix: renew rate limits when a loan reaches the
 accounts' own shards

---
 src/mempool/mempool.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index c6ae2f0..0b28f44 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -1068,6 +1068,28 @@ impl Mempool {
                             .invalidate_rate_limiter_for_fid(onchain_event.fid);
                     }
                 }
+                // A loan counts on the accounts' own shards once its block event is merged there
+                let merged = system_message.block_event.as_ref().and_then(|event| {
+                    match event.data.as_ref()?.body.as_ref()? {
+                        proto::block_event_data::Body::MergeMessageEventBody(body) => {
+                            body.message.as_ref()?.data.as_ref()
+                        }
+                        _ => None,
+                    }
+                });
+                if let Some(data) = merged {
+                    if let Some(proto::message_data::Body::LendStorageBody(lend_storage)) =
+                        &data.body
+                    {
+                        for fid in [data.fid, lend_storage.to_fid] {
+                            self.live_at_rate_limits
+                                .invalidate_rate_limiter_for_fid(fid);
+                            if let Some(rate_limits) = &mut self.rate_limits {
+                                rate_limits.invalidate_rate_limiter_for_fid(fid);
+                            }
+                        }
+                    }
+                }
                 self.statsd_client.count_with_shard(
                     height.shard_index,
                     "mempool.remove.success",
-- 
2.43.0


From ae7dd23496b5c9ee6fa2907fffc223249df0003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 20/20] fix: keep an account's rate limit for longer than its
 one-hour window

---
 src/mempool/mempool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index 0b28f44..32ded50 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -51,7 +51,7 @@ pub struct RateLimitsConfig {
 impl Default for RateLimitsConfig {
     fn default() -> Self {
         Self {
-            time_to_idle: Duration::from_secs(60 * 2 * 2),
+            time_to_idle: Duration::from_secs(60 * 60 * 2),
             // Make time to idle 2x the rate limit window so it's ok if out of sync
             max_capacity: 1_000_000,
         }
-- 
2.43.0


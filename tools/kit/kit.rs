#![allow(dead_code, unused_imports)]
pub use prost::Message as _;
pub use snapchain::core::util::FarcasterTime;
pub use snapchain::mempool::mempool::MempoolMessagesRequest;
pub use snapchain::proto::{self, *};
pub use snapchain::storage::db::{PageOptions, RocksDB};
pub use snapchain::storage::store::account::*;
pub use snapchain::storage::store::engine::{ShardEngine, ShardStateChange};
pub use snapchain::storage::store::mempool_poller::MempoolMessage;
pub use snapchain::storage::store::stores::{Limits, StoreLimits};
pub use snapchain::storage::store::test_helper::{self, *};
pub use snapchain::utils::factory::{events_factory, messages_factory, username_factory};
pub use std::sync::Arc;

pub fn small() -> StoreLimits {
    StoreLimits::new(limits::test(), limits::test(), limits::test())
}
pub async fn engine_on(db: Option<Arc<RocksDB>>, limits: StoreLimits) -> (ShardEngine, tempfile::TempDir) {
    new_engine_with_options(EngineOptions { limits: Some(limits), db, ..Default::default() }).await
}
pub async fn engine() -> (ShardEngine, tempfile::TempDir) {
    engine_on(None, limits::unlimited_store_limits()).await
}
pub fn open(dir: &tempfile::TempDir, name: &str) -> Arc<RocksDB> {
    let db = RocksDB::new(dir.path().join(name).to_str().unwrap());
    db.open().unwrap();
    Arc::new(db)
}
pub fn u(m: &Message) -> MempoolMessage {
    MempoolMessage::UserMessage(m.clone())
}
pub fn now() -> u32 {
    FarcasterTime::current().to_u64() as u32
}
pub async fn user(e: &mut ShardEngine, fid: u64) {
    register_user(fid, default_signer(), default_custody_address(), e).await
}
pub async fn commit(e: &mut ShardEngine, ms: Vec<MempoolMessage>) -> ShardChunk {
    let c = e.propose_state_change(1, ms, None);
    validate_and_commit_state_change(e, &c).await
}
pub async fn one(e: &mut ShardEngine, m: &Message) -> ShardChunk {
    commit(e, vec![u(m)]).await
}
pub fn has(e: &mut ShardEngine, m: &Message) -> bool {
    let key = snapchain::storage::trie::merkle_trie::TrieKey::for_message(m);
    key.iter().all(|k| e.trie_key_exists(snap_ctx(), k))
}
pub fn snap_ctx() -> &'static mut snapchain::storage::trie::merkle_trie::Context<'static> {
    Box::leak(Box::new(snapchain::storage::trie::merkle_trie::Context::new()))
}
/// ends the demo: 0 when it holds
pub fn verdict(ok: bool, what: &str) -> ! {
    if !ok {
        println!("BROKEN: {what}");
    }
    std::process::exit(if ok { 0 } else { 1 })
}
/// shard 0's engine
pub mod zero {
    use super::*;
    pub use snapchain::storage::store::block_engine::BlockEngine;
    pub use snapchain::storage::store::block_engine_test_helpers as h;
    pub fn engine() -> (BlockEngine, tempfile::TempDir) {
        h::setup()
    }
    pub fn user(e: &mut BlockEngine, fid: u64, units: u32) {
        h::register_user(fid, h::default_signer(), h::default_custody_address(), units, e)
    }
    pub fn commit(e: &mut BlockEngine, ms: Vec<MempoolMessage>) -> Block {
        let height = e.get_confirmed_height().increment();
        let c = e.propose_state_change(ms, height, None);
        h::validate_and_commit_state_change(e, &c)
    }
    pub fn has(e: &mut BlockEngine, m: &Message) -> bool {
        let key = snapchain::storage::trie::merkle_trie::TrieKey::for_message(m);
        key.iter().all(|k| e.trie_key_exists(snap_ctx(), k))
    }
    pub fn verify(fid: u64, address: Vec<u8>, t: u32) -> Message {
        messages_factory::verifications::create_verification_add(fid, 1, address, vec![], vec![0xB6; 32], Some(t), None)
    }
    pub fn channel(key: &str, owner: Vec<u8>, kind: ChannelRegisterEventType, block: u32, tx: u32, log: u32) -> OnChainEvent {
        let label = alloy_primitives::keccak256(key.as_bytes()).to_vec();
        let mut e = events_factory::create_channel_register_event(key, label, owner, 1000, kind, block, log);
        e.tx_index = tx;
        e
    }
}

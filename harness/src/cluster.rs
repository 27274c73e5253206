//! A set of simulated nodes, each running the real block engine and shard engines over its own
//! simulated disk, driven one committed block at a time.  What consensus would decide is decided
//! here by the plan; what a node does with the decision is the real code.
use crate::core::*;
use prost::Message as _;
use rocksdb::sim as disk;
use snapchain::core::util::FarcasterTime;
use snapchain::mempool::mempool::MempoolMessagesRequest;
use snapchain::proto as p;
use snapchain::storage::db::{PageOptions, RocksDB};
use snapchain::storage::store::block_engine::{BlockEngine, BlockStateChange};
use snapchain::storage::store::engine::{ShardEngine, ShardStateChange};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::StoreLimits;
use snapchain::storage::store::test_helper;
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::version::version::EngineVersion;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub const NET: p::FarcasterNetwork = p::FarcasterNetwork::Devnet;

/// Faults armed against nodes' disks.
#[derive(Default)]
pub struct Armed {
    /// node directory -> (kind, writes left before it strikes)
    pub at: HashMap<PathBuf, (disk::Action, u64)>,
    pub struck: Vec<(PathBuf, disk::Action)>,
}
pub fn install_hook(armed: Arc<Mutex<Armed>>) {
    disk::reset();
    disk::set_hook(Some(Box::new(move |e: &disk::Event| {
        if e.op != disk::Op::BeforeWrite && e.op != disk::Op::AfterWrite {
            return disk::Action::Proceed;
        }
        let mut a = armed.lock().unwrap();
        let dir = match a.at.keys().find(|d| e.path.starts_with(d)) {
            Some(d) => d.clone(),
            None => return disk::Action::Proceed,
        };
        let (kind, left) = a.at[&dir].clone();
        if kind == disk::Action::Fail && e.op == disk::Op::AfterWrite {
            return disk::Action::Proceed;
        }
        if left > 0 {
            a.at.insert(dir, (kind, left - 1));
            return disk::Action::Proceed;
        }
        a.at.remove(&dir);
        a.struck.push((dir, kind));
        kind
    })));
}

pub struct Shard {
    pub engine: ShardEngine,
    pub rx: tokio::sync::broadcast::Receiver<p::HubEvent>,
    _req: tokio::sync::mpsc::Receiver<MempoolMessagesRequest>,
}
pub struct Node {
    pub idx: usize,
    pub dir: PathBuf,
    pub up: bool,
    pub skew: i64,
    pub block: Option<BlockEngine>,
    pub shards: Vec<Option<Shard>>,
    /// it must not lose what it acknowledged before this height (per shard)
    pub synced: Vec<u64>,
    /// writes really went missing since it last came up
    pub lost: bool,
    /// the machine, not only the process, goes down next
    pub power: bool,
}

/// What was decided at a height, and what the first node to apply it then had.
pub struct Decided {
    pub block: Option<p::Block>,
    pub chunk: Option<p::ShardChunk>,
    pub digest: Vec<u8>,
    pub rows: Vec<(Vec<u8>, Vec<u8>)>,
    /// what was broadcast, once some node finished applying it
    pub events: Option<Vec<p::HubEvent>>,
}

pub struct Cluster {
    pub rt: tokio::runtime::Runtime,
    pub nodes: Vec<Node>,
    pub nshards: u32,
    pub chains: Vec<Vec<Decided>>,
    pub block_events: Vec<p::BlockEvent>,
    pub armed: Arc<Mutex<Armed>>,
    pub limits: StoreLimits,
    pub last_ts: Vec<u64>,
    pub keep_rows: bool,
    /// the node that only follows decisions
    pub reader: Option<usize>,
    pub net: p::FarcasterNetwork,
    pub fname_signer: Option<alloy_primitives::Address>,
    /// history that housekeeping was right to remove, by node and shard
    pub gone: BTreeMap<(usize, u32), BTreeMap<Vec<u8>, Vec<u8>>>,
    /// blocks of one second
    pub ties: bool,
}

pub fn block_hash(header: &[u8]) -> Vec<u8> {
    blake3::hash(header).as_bytes().to_vec()
}

/// A database as this simulator compares it: what a map's encoding order, or the wall clock, may
/// legitimately vary is put in canonical form.
pub fn canonical(rows: Vec<(Vec<u8>, Vec<u8>)>) -> Vec<(Vec<u8>, Vec<u8>)> {
    rows.into_iter()
        .filter_map(|(k, v)| match k.first() {
            Some(9) => {
                let s = match p::HubEvent::decode(v.as_slice()) {
                    Ok(e) => event_text(&e).into_bytes(),
                    Err(_) => v,
                };
                Some((k, s))
            }
            Some(8) => {
                let v = match p::DbTrieNode::decode(v.as_slice()) {
                    Ok(mut n) => {
                        n.child_chars.sort();
                        let h: BTreeMap<_, _> = n.child_hashes.iter().map(|(k, v)| (*k, hex::encode(v))).collect();
                        format!("{:?} {:?} {} {:?}", n.key, n.child_chars, n.items, h).into_bytes()
                    }
                    Err(_) => v,
                };
                Some((k, v))
            }
            // progress notes of this node alone
            Some(17) => None,
            _ => Some((k, v)),
        })
        .collect()
}
/// The height a row of history belongs to: a block, a shard's chunk, or an event of one.
pub fn history_height(k: &[u8]) -> Option<u64> {
    let n = u64::from_be_bytes(k.get(1..9)?.try_into().ok()?);
    match (k[0], k.len()) {
        (1 | 2, 9) => Some(n),
        (9, 9) => Some(n >> 14),
        _ => None,
    }
}
pub fn digest(rows: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut h = blake3::Hasher::new();
    for (k, v) in rows {
        h.update(&(k.len() as u32).to_be_bytes());
        h.update(k);
        h.update(&(v.len() as u32).to_be_bytes());
        h.update(v);
    }
    h.finalize().as_bytes().to_vec()
}
pub fn diff(a: &[(Vec<u8>, Vec<u8>)], b: &[(Vec<u8>, Vec<u8>)]) -> String {
    let (ma, mb): (BTreeMap<_, _>, BTreeMap<_, _>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    let mut s = vec![];
    for (k, v) in &ma {
        match mb.get(k) {
            None => s.push(format!("-{}", show_key(k))),
            Some(w) if w != v => s.push(format!("~{}{}", show_key(k), show_val(k, v, w))),
            _ => {}
        }
    }
    for k in mb.keys() {
        if !ma.contains_key(k) {
            s.push(format!("+{}", show_key(k)));
        }
    }
    let n = s.len();
    s.truncate(6);
    format!("{n} rows differ: {}", s.join(" "))
}
fn show_val(k: &[u8], v: &[u8], w: &[u8]) -> String {
    if k.first() == Some(&9) {
        let cut = |b: &[u8]| String::from_utf8_lossy(b).chars().take(160).collect::<String>();
        format!(" [{} | {}]", cut(v), cut(w))
    } else {
        String::new()
    }
}
fn show_key(k: &[u8]) -> String {
    let names = [
        "?", "Block", "Shard", "User", "CastsByParent", "CastsByMention", "LinksByTarget", "ReactionsByTarget", "Trie", "HubEvent", "Net", "FName", "OnChain", "Schema",
        "VerifByAddr", "FNameByFid", "ProofByName", "NodeState", "BlockIndex", "BlockEvent",
    ];
    let n = k.first().map(|b| names.get(*b as usize).map(|s| s.to_string()).unwrap_or(format!("#{b}"))).unwrap_or_default();
    let h = hex::encode(&k[1.min(k.len())..]);
    format!("{n}:{}", h.chars().take(60).collect::<String>())
}
pub fn short(h: &[u8]) -> String {
    hex::encode(&h[..h.len().min(5)])
}
pub fn msg_text(m: &p::Message) -> String {
    let d = match m.data.as_ref() {
        Some(d) => d,
        None => return format!("(no data) {}", short(&m.hash)),
    };
    format!("{:?} fid {} ts {} #{}", d.r#type(), d.fid, d.timestamp, short(&m.hash))
}
pub fn event_text(e: &p::HubEvent) -> String {
    use p::hub_event::Body::*;
    let b = match &e.body {
        Some(MergeMessageBody(b)) => format!(
            "merge {} deleting [{}]",
            b.message.as_ref().map(msg_text).unwrap_or_default(),
            b.deleted_messages.iter().map(msg_text).collect::<Vec<_>>().join(", ")
        ),
        Some(PruneMessageBody(b)) => format!("prune {}", b.message.as_ref().map(msg_text).unwrap_or_default()),
        Some(RevokeMessageBody(b)) => format!("revoke {}", b.message.as_ref().map(msg_text).unwrap_or_default()),
        Some(MergeFailure(b)) => format!("failure {} {} {}", b.message.as_ref().map(msg_text).unwrap_or_default(), b.code, b.reason),
        Some(BlockConfirmedBody(b)) => {
            let c: BTreeMap<_, _> = b.event_counts_by_type.iter().collect();
            format!(
                "confirmed {}/{} ts {} {} total {} {:?} seq {}",
                b.shard_index,
                b.block_number,
                b.timestamp,
                short(&b.block_hash),
                b.total_events,
                c,
                b.max_block_event_seqnum
            )
        }
        Some(MergeOnChainEventBody(b)) => b.on_chain_event.as_ref().map(crate::zero::brief_chain).unwrap_or_default(),
        o => format!("{o:?}"),
    };
    format!("{} {} {b}", e.id, e.r#type)
}
pub fn is_crash(e: &(dyn std::any::Any + Send)) -> bool {
    e.is::<disk::SimCrash>()
}

pub enum Ran<T> {
    Done(T),
    /// the node went down while doing it
    Down,
}

impl Cluster {
    pub fn new(base: &Path, nnodes: usize, nshards: u32, limits: StoreLimits) -> Self {
        let armed = Arc::new(Mutex::new(Armed::default()));
        install_hook(armed.clone());
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let nodes = (0..nnodes)
            .map(|i| Node {
                idx: i,
                dir: base.join(format!("n{i}")),
                up: false,
                skew: 0,
                block: None,
                shards: vec![],
                synced: vec![0; nshards as usize + 1],
                lost: false,
                power: false,
            })
            .collect();
        Cluster {
            rt,
            nodes,
            nshards,
            chains: (0..=nshards).map(|_| vec![]).collect(),
            block_events: vec![],
            armed,
            limits,
            last_ts: vec![0; nshards as usize + 1],
            keep_rows: true,
            reader: None,
            net: NET,
            fname_signer: None,
            gone: BTreeMap::new(),
            ties: false,
        }
    }
    pub fn path(&self, node: usize, shard: u32) -> PathBuf {
        self.nodes[node].dir.join(format!("s{shard}"))
    }
    /// What a node stores, with the history it was right to forget put back.
    pub fn dump(&self, node: usize, shard: u32) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut rows = self.dump_kept(node, shard);
        if let Some(gone) = self.gone.get(&(node, shard)) {
            let head = rows.iter().filter_map(|(k, _)| history_height(k).filter(|_| k[0] < 3)).max().unwrap_or(0);
            let have: std::collections::BTreeSet<Vec<u8>> = rows.iter().map(|x| x.0.clone()).collect();
            rows.extend(gone.iter().filter(|(k, _)| !have.contains(*k) && history_height(k).unwrap() <= head).map(|(k, v)| (k.clone(), v.clone())));
            rows.sort();
        }
        rows
    }
    pub fn dump_kept(&self, node: usize, shard: u32) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut rows = canonical(disk::dump(&self.path(node, shard)).unwrap_or_default());
        // before version 12 shard 0 numbered its events by what the node had done, not by height
        let first = self.chains[shard as usize].first().and_then(|d| d.block.as_ref()).map_or(u64::MAX, |b| b.header.as_ref().unwrap().timestamp + crate::gen::FC_EPOCH);
        if shard == 0 && first != u64::MAX && crate::form::version(self.net, first) < 12 {
            rows.retain(|(k, _)| k[0] != 9);
        }
        rows
    }
    fn enter(&self, n: usize) {
        crate::sys::set_skew_ms(self.nodes[n].skew);
    }
    fn struck(&self, n: usize) -> Vec<disk::Action> {
        let mut a = self.armed.lock().unwrap();
        let d = self.nodes[n].dir.clone();
        let r = a.struck.iter().filter(|(x, _)| *x == d).map(|(_, k)| *k).collect();
        a.struck.retain(|(x, _)| *x != d);
        r
    }
    /// Run something on a node.  An injected crash, or a panic that follows an injected disk error,
    /// takes the node down; any other panic is the system's own.
    pub fn on<T>(&mut self, sim: &mut Sim, n: usize, what: &str, f: impl FnOnce(&mut Self) -> T) -> Ran<T> {
        self.enter(n);
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        crate::sys::set_skew_ms(0);
        let struck = self.struck(n);
        for k in &struck {
            sim.count(if *k == disk::Action::Fail { "fault.disk_write_error" } else { "fault.crash_at_write" });
            sim.log(format!("n{n} {what}: disk {}", if *k == disk::Action::Fail { "write error" } else { "crash point" }));
        }
        match r {
            Ok(_) if struck.contains(&disk::Action::Crash) => {
                // it struck in a task of the node's
                sim.log(format!("n{n} down during {what}"));
                self.down(n);
                Ran::Down
            }
            Ok(v) => {
                if struck.contains(&disk::Action::Fail) {
                    sim.count("probe.disk_error_survived");
                }
                Ran::Done(v)
            }
            Err(e) => {
                if is_crash(&*e) || !struck.is_empty() {
                    sim.log(format!("n{n} down during {what}"));
                    self.down(n);
                    Ran::Down
                } else {
                    sim.log(format!("n{n} panicked during {what}: {} ({})", crate::runner::panic_text(&*e), crate::runner::last_panic_at()));
                    resume_unwind(e)
                }
            }
        }
    }
    pub fn down(&mut self, n: usize) {
        let dir = self.nodes[n].dir.clone();
        disk::kill(&dir);
        self.armed.lock().unwrap().at.remove(&dir);
        let node = &mut self.nodes[n];
        node.up = false;
        // the process is gone: nothing it would do on the way out may happen
        for s in node.shards.drain(..).flatten() {
            std::mem::forget(s);
        }
        std::mem::forget(node.block.take());
    }
    /// A machine crash: the tail of each database's unsynced log may go, too.
    pub fn lose(&mut self, sim: &mut Sim, n: usize, writes: usize) {
        for s in 0..=self.nshards {
            let k = disk::lose_tail(&self.path(n, s), writes);
            if k > 0 {
                sim.add("fault.unsynced_writes_lost", k as u64);
                self.nodes[n].lost = true;
            }
        }
    }
    pub fn start(&mut self, sim: &mut Sim, n: usize) -> Ran<()> {
        let limits = self.limits.clone();
        let nshards = self.nshards;
        let r = self.on(sim, n, "start", |c| {
            let open = |path: &Path| {
                std::fs::create_dir_all(path).unwrap();
                let db = RocksDB::new(path.to_str().unwrap());
                db.open().unwrap();
                Arc::new(db)
            };
            let (tx0, rx0) = tokio::sync::mpsc::channel(4);
            std::mem::forget(rx0);
            let block = BlockEngine::new(MerkleTrie::new().unwrap(), test_helper::statsd_client(), open(&c.path(n, 0)), 256, if c.reader == Some(n) { None } else { Some(tx0) }, c.net);
            let mut shards = vec![];
            for s in 1..=nshards {
                let (tx, req) = tokio::sync::mpsc::channel(4);
                let db = open(&c.path(n, s));
                let engine = c
                    .rt
                    .block_on(ShardEngine::new(
                        db,
                        c.net,
                        MerkleTrie::new().unwrap(),
                        s,
                        limits.clone(),
                        test_helper::statsd_client(),
                        256,
                        if c.reader == Some(n) { None } else { Some(tx) },
                        c.fname_signer,
                        None,
                    ))
                    .unwrap();
                let rx = engine.get_senders().events_tx.subscribe();
                shards.push(Some(Shard { engine, rx, _req: req }));
            }
            c.nodes[n].block = Some(block);
            c.nodes[n].shards = shards;
            c.nodes[n].up = true;
        });
        if let Ran::Down = r {
            return Ran::Down;
        }
        sim.log(format!("n{n} started at {:?}", (0..=nshards).map(|s| self.height(n, s)).collect::<Vec<_>>()));
        // what survived must be exactly the state of the height it reports
        for s in 0..=nshards {
            let h = self.height(n, s);
            if h as usize > self.chains[s as usize].len() {
                sim.violate("A02", "from_nowhere", format!("node {n} shard {s} restarted at height {h}, which was never decided"));
                continue;
            }
            if !self.nodes[n].lost {
                let had = self.nodes[n].synced[s as usize];
                sim.check("A02", "acknowledged_lost", h >= had, || format!("node {n} shard {s} had applied height {had} before the crash and came back at {h}, with no write lost by the disk"));
            }
            self.nodes[n].synced[s as usize] = h;
            if h > 0 {
                self.same_state(sim, n, s, "A02", "torn_state", "after a restart");
            } else {
                let rows = self.dump(n, s);
                let rows: Vec<_> = rows.into_iter().filter(|(k, _)| !matches!(k[0], 8 | 13)).collect();
                sim.check("A02", "torn_state", rows.is_empty(), || format!("node {n} shard {s} reports no block, yet holds state after a restart: {}", diff(&[], &rows)));
            }
        }
        self.nodes[n].lost = false;
        Ran::Done(())
    }
    pub fn height(&self, n: usize, s: u32) -> u64 {
        let node = &self.nodes[n];
        if s == 0 {
            node.block.as_ref().unwrap().get_confirmed_height().block_number
        } else {
            node.shards[s as usize - 1].as_ref().unwrap().engine.get_confirmed_height().block_number
        }
    }
    pub fn shard(&mut self, n: usize, s: u32) -> &mut ShardEngine {
        &mut self.nodes[n].shards[s as usize - 1].as_mut().unwrap().engine
    }
    pub fn block(&mut self, n: usize) -> &mut BlockEngine {
        self.nodes[n].block.as_mut().unwrap()
    }
    pub fn can_vote(&self, n: usize, s: u32) -> bool {
        self.reader != Some(n) && self.at_head(n, s)
    }
    pub fn at_head(&self, n: usize, s: u32) -> bool {
        self.nodes[n].up && self.height(n, s) as usize == self.chains[s as usize].len()
    }
    fn same_state(&mut self, sim: &mut Sim, n: usize, s: u32, prop: &str, rule: &str, when: &str) -> bool {
        let h = self.height(n, s) as usize;
        let rows = self.dump(n, s);
        let d = digest(&rows);
        sim.state(&d);
        let rec = &mut self.chains[s as usize][h - 1];
        if rec.digest.is_empty() {
            // the first to apply this height went down while doing so: its events went unheard
            rec.digest = d;
            rec.rows = rows;
            return true;
        }
        let same = d == rec.digest;
        sim.check(prop, rule, same, || {
            format!("node {n} shard {s} height {h} {when}: stored state differs from the first node's at that height: {}", if rec.rows.is_empty() { String::new() } else { diff(&rec.rows, &rows) })
        });
        same
    }
    /// The hub events a node broadcast since last asked.
    pub fn drain(&mut self, n: usize, s: u32) -> Vec<p::HubEvent> {
        let mut v = vec![];
        if s == 0 {
            return v;
        }
        let sh = self.nodes[n].shards[s as usize - 1].as_mut().unwrap();
        loop {
            match sh.rx.try_recv() {
                Ok(e) => v.push(e),
                Err(tokio::sync::broadcast::error::TryRecvError::Lagged(_)) => continue,
                Err(_) => break,
            }
        }
        v
    }
    pub fn header_ts(&self, s: u32) -> u64 {
        let now = (crate::sys::true_unix_ms() / 1000) as u64 - crate::gen::FC_EPOCH;
        now.max(self.last_ts[s as usize] + if self.ties { 0 } else { 1 })
    }

    // ------------------------------------------------------------ data shards

    pub fn propose(&mut self, sim: &mut Sim, n: usize, s: u32, msgs: Vec<MempoolMessage>) -> Option<ShardStateChange> {
        let ts = self.header_ts(s);
        let h = p::Height { shard_index: s, block_number: self.chains[s as usize].len() as u64 + 1 };
        match self.on(sim, n, "propose", |c| {
            let e = c.shard(n, s);
            e.start_round(h.into(), informalsystems_malachitebft_core_types::Round::new(0));
            e.propose_state_change(s, msgs, Some(FarcasterTime::new(ts)))
        }) {
            Ran::Done(c) => Some(c),
            Ran::Down => None,
        }
    }
    pub fn chunk_of(&self, s: u32, sc: &ShardStateChange) -> p::ShardChunk {
        let chain = &self.chains[s as usize];
        let header = p::ShardHeader {
            height: Some(p::Height { shard_index: s, block_number: chain.len() as u64 + 1 }),
            timestamp: sc.timestamp.to_u64(),
            parent_hash: chain.last().map(|d| d.chunk.as_ref().unwrap().hash.clone()).unwrap_or(vec![0; 32]),
            shard_root: sc.new_state_root.clone(),
        };
        let hash = block_hash(&header.encode_to_vec());
        p::ShardChunk { header: Some(header), hash, transactions: sc.transactions.clone(), commits: Some(p::Commits::default()) }
    }
    pub fn validate(&mut self, sim: &mut Sim, n: usize, c: &p::ShardChunk) -> Option<bool> {
        self.validate_as(sim, n, c, true)
    }
    /// without entering a new round first
    pub fn validate_in_round(&mut self, sim: &mut Sim, n: usize, c: &p::ShardChunk) -> Option<bool> {
        self.validate_as(sim, n, c, false)
    }
    fn validate_as(&mut self, sim: &mut Sim, n: usize, c: &p::ShardChunk, round: bool) -> Option<bool> {
        let h = c.header.as_ref().unwrap().clone();
        let height = h.height.unwrap();
        let ts = FarcasterTime::new(h.timestamp);
        let sc = ShardStateChange {
            shard_id: height.shard_index,
            version: EngineVersion::version_for(&ts, self.net),
            timestamp: ts,
            new_state_root: h.shard_root.clone(),
            transactions: c.transactions.clone(),
            events: vec![],
            max_block_event_seqnum: 0,
        };
        match self.on(sim, n, "validate", |cl| {
            let e = cl.shard(n, height.shard_index);
            if round {
                e.start_round(height.into(), informalsystems_malachitebft_core_types::Round::new(0));
            }
            e.validate_state_change(&sc, height.into())
        }) {
            Ran::Done(b) => Some(b),
            Ran::Down => None,
        }
    }
    /// Decide a chunk: it joins the chain with no record of its effect yet.
    pub fn decide(&mut self, c: p::ShardChunk) {
        let s = c.header.as_ref().unwrap().height.unwrap().shard_index as usize;
        self.last_ts[s] = c.header.as_ref().unwrap().timestamp;
        self.chains[s].push(Decided { block: None, chunk: Some(c), digest: vec![], rows: vec![], events: None });
    }
    /// Apply the next decided chunk or block on a node, and compare with whoever applied it first.
    /// The events broadcast come back.
    pub fn apply(&mut self, sim: &mut Sim, n: usize, s: u32, via: &str) -> Option<Vec<p::HubEvent>> {
        let h = self.height(n, s) as usize;
        let chunk = self.chains[s as usize][h].chunk.clone();
        let block = self.chains[s as usize][h].block.clone();
        self.drain_discard(n, s);
        let r = self.on(sim, n, "commit", |c| {
            if let Some(ch) = &chunk {
                if via == "replay" && c.reader != Some(n) {
                    // a validator enters the height before the decision reaches it, a reader does not
                    c.shard(n, s).start_round(ch.header.as_ref().unwrap().height.unwrap().into(), informalsystems_malachitebft_core_types::Round::new(0));
                }
                let mut sh = c.nodes[n].shards[s as usize - 1].take().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| c.rt.block_on(sh.engine.commit_shard_chunk(ch))));
                c.nodes[n].shards[s as usize - 1] = Some(sh);
                if let Err(e) = r {
                    resume_unwind(e)
                }
            } else {
                c.block(n).commit_block(block.as_ref().unwrap());
            }
        });
        if let Ran::Down = r {
            return None;
        }
        let now = self.height(n, s) as usize;
        if now != h + 1 {
            // an error it swallowed: the next restart decides
            sim.log(format!("n{n} s{s} still at {now} after committing {}", h + 1));
            sim.violate("A02", "commit_not_recorded", format!("node {n} shard {s} returned from committing height {} but reports height {now}", h + 1));
            return None;
        }
        self.nodes[n].synced[s as usize] = now as u64;
        let evs = self.drain(n, s);
        sim.count(if via == "replay" { "op.replayed" } else { "op.committed" });
        let rows = self.dump(n, s);
        let d = digest(&rows);
        sim.state(&d);
        sim.log(format!("n{n} s{s} applied {now} ({via}), {} events, state {}", evs.len(), short(&d)));
        if sim.verbose {
            for e in &evs {
                eprintln!("           . {}", event_text(e).chars().take(160).collect::<String>());
            }
        }
        let rec = &mut self.chains[s as usize][h];
        if rec.digest.is_empty() {
            rec.digest = d;
            if self.keep_rows {
                rec.rows = rows;
            }
            rec.events = Some(evs.clone());
        } else {
            let prop = if via == "replay" { "A04" } else { "A10" };
            // the event log is its own promise, the rest of the state another
            let split = |rows: &[(Vec<u8>, Vec<u8>)]| -> (Vec<_>, Vec<_>) { rows.iter().cloned().partition(|(k, _)| k[0] == 9) };
            if d != rec.digest {
                let ((ea, sa), (eb, sb)) = (split(&rec.rows), split(&rows));
                if sa != sb {
                    let det = diff(&sa, &sb);
                    sim.violate(prop, "replica_state", format!("node {n} shard {s} height {now} ({via}): stored state differs from the first node's: {det}"));
                }
                if ea != eb {
                    sim.violate("A09", "stored_events_differ", format!("node {n} shard {s} height {now} ({via}): the stored event log differs from the first node's: {}", diff(&ea, &eb)));
                }
            }
            sim.count(&format!("oracle.{prop}"));
            let first = rec.events.get_or_insert_with(|| evs.clone());
            let (mut a, mut b): (Vec<String>, Vec<String>) = (first.iter().map(event_text).collect(), evs.iter().map(event_text).collect());
            a.sort();
            b.sort();
            sim.check("A09", "broadcast_differs", a == b, || {
                let x = a.iter().find(|x| !b.contains(x)).cloned().unwrap_or_default();
                let y = b.iter().find(|y| !a.contains(y)).cloned().unwrap_or_default();
                format!("node {n} shard {s} height {now}: {} events sent, the first node sent {}: [{y}] against [{x}]", b.len(), a.len())
            });
        }
        Some(evs)
    }
    fn drain_discard(&mut self, n: usize, s: u32) {
        self.drain(n, s);
    }

    // ------------------------------------------------------------ shard 0

    pub fn propose_block(&mut self, sim: &mut Sim, n: usize, msgs: Vec<MempoolMessage>) -> Option<BlockStateChange> {
        let ts = self.header_ts(0);
        let h = p::Height { shard_index: 0, block_number: self.chains[0].len() as u64 + 1 };
        match self.on(sim, n, "propose block", |c| c.block(n).propose_state_change(msgs, h.into(), Some(FarcasterTime::new(ts)))) {
            Ran::Done(c) => Some(c),
            Ran::Down => None,
        }
    }
    pub fn block_of(&self, sc: &BlockStateChange) -> p::Block {
        let chain = &self.chains[0];
        let header = p::BlockHeader {
            height: Some(p::Height { shard_index: 0, block_number: chain.len() as u64 + 1 }),
            timestamp: sc.timestamp.to_u64(),
            version: 1,
            chain_id: self.net as i32,
            shard_witnesses_hash: blake3::hash(b"").as_bytes().to_vec(),
            parent_hash: chain.last().map(|d| d.block.as_ref().unwrap().hash.clone()).unwrap_or(vec![0; 32]),
            state_root: sc.new_state_root.clone(),
            events_hash: sc.events_hash.clone(),
            ..Default::default()
        };
        let hash = block_hash(&header.encode_to_vec());
        p::Block {
            header: Some(header),
            hash,
            shard_witness: Some(p::ShardWitness { shard_chunk_witnesses: vec![] }),
            commits: Some(p::Commits::default()),
            transactions: sc.transactions.clone(),
            events: sc.events.clone(),
            ..Default::default()
        }
    }
    pub fn validate_block(&mut self, sim: &mut Sim, n: usize, b: &p::Block) -> Option<bool> {
        let h = b.header.as_ref().unwrap().clone();
        let sc = BlockStateChange {
            timestamp: FarcasterTime::new(h.timestamp),
            new_state_root: h.state_root.clone(),
            events_hash: h.events_hash.clone(),
            transactions: b.transactions.clone(),
            events: b.events.clone(),
        };
        match self.on(sim, n, "validate block", |c| c.block(n).validate_state_change(&sc, h.height.unwrap().into())) {
            Ran::Done(x) => Some(x),
            Ran::Down => None,
        }
    }
    pub fn decide_block(&mut self, b: p::Block) {
        self.last_ts[0] = b.header.as_ref().unwrap().timestamp;
        self.block_events.extend(b.events.iter().cloned());
        self.chains[0].push(Decided { block: Some(b), chunk: None, digest: vec![], rows: vec![], events: None });
    }
    /// Every stored hub event of a shard, in id order, read a page at a time.
    pub fn stored_events(&mut self, n: usize, s: u32, from: u64, page: usize) -> Vec<p::HubEvent> {
        let stores = self.shard(n, s).get_stores();
        let mut out = vec![];
        let mut start = from;
        loop {
            let r = stores.get_events(start, None, Some(PageOptions { page_size: Some(page), page_token: None, reverse: false }));
            let r = match r {
                Ok(r) => r,
                Err(_) => break,
            };
            if r.events.is_empty() {
                break;
            }
            start = r.events.last().unwrap().id + 1;
            let n = r.events.len();
            out.extend(r.events);
            if n < page {
                break;
            }
        }
        out
    }
}

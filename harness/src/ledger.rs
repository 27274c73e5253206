//! The ledger world: what blocks do to state, against the reference model, on several replicas
//! that crash, lose writes, restart, lag, and replay.
use crate::cluster::*;
use crate::core::*;
use crate::gen;
use crate::model::*;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::mempool::routing::{MessageRouter, ShardRouter};
use snapchain::proto as p;
use snapchain::proto::message_data::Body;
use snapchain::storage::db::{PageOptions, RocksDB};
use snapchain::storage::store::account as acct;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::{Limits, StoreLimits, Stores};
use snapchain::storage::store::test_helper;
use snapchain::storage::trie::merkle_trie::{Context, MerkleTrie, TrieKey};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Ledger;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Knobs {
    pub nodes: usize,
    pub shards: u32,
    pub limited: bool,
    /// the last node only reads
    #[serde(default)]
    pub reader: bool,
    pub fids: Vec<u64>,
    /// blocks may share a second
    #[serde(default)]
    pub ties: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
pub enum Op {
    Chain { m: String },
    Fname { m: String },
    Msg { m: String, bad: Option<String> },
    Make { shard: u32, by: usize, max: usize, how: String },
    Sync { node: usize, shard: u32, n: usize },
    Crash { node: usize, at: u64, lose: usize },
    DiskError { node: usize, at: u64 },
    Stop { node: usize, lose: usize },
    Start { node: usize },
    Clock { ms: u64 },
    Skew { node: usize, ms: i64 },
    Simulate { node: usize, m: String, bad: Option<String> },
    /// several messages tried at once, none to be kept
    Trial { node: usize, msgs: Vec<String> },
    Audit { node: usize, shard: u32, seed: u64 },
    Tamper { shard: u32, by: usize, how: String, seed: u64 },
    /// history past its retention is removed, by the scheduled jobs or by direct requests
    House { node: usize, how: String, events: u64, blocks: u64, synced: bool, page: usize },
}

pub fn enc(m: &impl prost::Message) -> String {
    hex::encode(m.encode_to_vec())
}
pub fn dec<T: prost::Message + Default>(s: &str) -> T {
    T::decode(hex::decode(s).unwrap().as_slice()).unwrap()
}
/// A message that one block's events report replaced and afterwards pruned.
fn pruned_twice(evs: &[p::HubEvent]) -> Option<p::Message> {
    use p::hub_event::Body as H;
    let mut gone: BTreeSet<Vec<u8>> = BTreeSet::new();
    for e in evs {
        match &e.body {
            Some(H::MergeMessageBody(b)) => {
                gone.extend(b.deleted_messages.iter().map(|m| m.hash.clone()));
                gone.remove(&b.message.as_ref()?.hash);
            }
            Some(H::MergeUsernameProofBody(b)) => {
                if let (None, Some(m)) = (&b.username_proof_message, &b.deleted_username_proof_message) {
                    if gone.contains(&m.hash) {
                        return Some(m.clone());
                    }
                }
                gone.extend(b.deleted_username_proof_message.iter().map(|m| m.hash.clone()));
            }
            Some(H::PruneMessageBody(b)) if gone.contains(&b.message.as_ref()?.hash) => return b.message.clone(),
            _ => {}
        }
    }
    None
}
const YEAR: u64 = 31_536_000;
pub fn unix_of(c: &p::ShardChunk) -> u64 {
    c.header.as_ref().unwrap().timestamp + gen::FC_EPOCH
}
pub fn home(f: u64, shards: u32) -> u32 {
    ShardRouter {}.route_fid(f, shards)
}
const TEST_LIMITS: [(St, [u32; 3]); 6] = [(St::Cast, [4; 3]), (St::Link, [4; 3]), (St::React, [3; 3]), (St::Data, [4; 3]), (St::Proof, [2; 3]), (St::Verif, [2; 3])];
const FULL_LIMITS: [(St, [u32; 3]); 6] = [
    (St::Cast, [5000, 2000, 100]),
    (St::Link, [2500, 1000, 200]),
    (St::React, [2500, 1000, 200]),
    (St::Data, [50, 50, 25]),
    (St::Proof, [5, 5, 2]),
    (St::Verif, [25, 25, 5]),
];

// ---------------------------------------------------------------- generation

struct G {
    r: Rng,
    k: Knobs,
    plan: Vec<serde_json::Value>,
    /// seconds since the run began
    t: u64,
    n: u64,
    fname_id: u64,
    casts: Vec<(u64, Vec<u8>, u32)>,
    signers: BTreeMap<u64, Vec<(u64, bool)>>,
    names: BTreeMap<String, (u64, u64)>,
    verified: Vec<(u64, u64)>,
    focus: String,
    last_ts: HashMap<(u64, St), u32>,
    sent: Vec<p::Message>,
}
impl G {
    fn push(&mut self, o: Op) {
        self.plan.push(serde_json::to_value(&o).unwrap());
    }
    fn unix(&self) -> u64 {
        crate::sys::BASE_UNIX + self.t
    }
    fn now(&self) -> u32 {
        (self.unix() - gen::FC_EPOCH) as u32
    }
    fn fid(&mut self) -> u64 {
        let v = self.k.fids.clone();
        *self.r.pick(&v)
    }
    fn chain(&mut self, e: p::OnChainEvent) {
        self.push(Op::Chain { m: enc(&e) });
    }
    /// A year and more goes by, in which all storage lapses; most accounts buy new storage.
    fn leap(&mut self) {
        let s = self.r.range(366, 500) * 86_400;
        self.t += s;
        self.push(Op::Clock { ms: s * 1000 });
        for f in self.k.fids.clone() {
            if self.r.chance(800) {
                self.n += 1;
                let (u, n) = (self.unix() - self.r.below(100), self.n * 8 + 700);
                let units = self.r.range(1, 2) as u32;
                self.chain(gen::rent(f, units, u, n));
            }
        }
    }
    fn key(&mut self, f: u64) -> ed25519_dalek::SigningKey {
        let live: Vec<u64> = self.signers[&f].iter().filter(|x| x.1).map(|x| x.0).collect();
        if live.is_empty() || self.r.chance(30) {
            // a removed or never-added signer
            let i = self.r.below(5);
            return gen::signer(f, i);
        }
        gen::signer(f, *self.r.pick(&live))
    }
    /// A timestamp that often ties with, or falls behind, what was sent before.
    fn ts(&mut self, f: u64, s: St) -> u32 {
        let now = self.now();
        if self.k.limited {
            // the oldest-first rule is judged on rows stored before the block: keep new ones newest
            let last = self.last_ts.get(&(f, s)).copied().unwrap_or(0);
            let t = now.max(last + self.r.range(0, 1) as u32);
            let t = t.min(now + 300);
            self.last_ts.insert((f, s), t);
            return t;
        }
        match self.r.below(10) {
            0..=3 => now,
            4..=6 => now - self.r.below(20) as u32,
            7 => now - 10,
            8 => now + self.r.below(60) as u32,
            _ => now - self.r.below(300) as u32,
        }
    }
    fn target(&mut self) -> p::CastId {
        if !self.casts.is_empty() && self.r.chance(600) {
            let c = self.casts.clone();
            let (fid, hash, _) = self.r.pick(&c).clone();
            p::CastId { fid, hash }
        } else {
            let n = self.r.below(4);
            p::CastId { fid: 900 + n, hash: blake3::hash(&n.to_be_bytes()).as_bytes()[..20].to_vec() }
        }
    }
    fn user_message(&mut self) -> Option<p::Message> {
        let f = self.fid();
        let w = match self.focus.as_str() {
            "B15" => [6, 2, 50, 20, 5, 5, 5, 2, 2, 2],
            "B06" => [6, 2, 6, 2, 6, 10, 40, 25, 5, 2],
            "B14" => [4, 2, 4, 1, 4, 20, 5, 3, 40, 20],
            "B17" => [8, 4, 6, 1, 50, 5, 5, 3, 4, 2],
            "B04" => [20, 8, 25, 5, 20, 6, 4, 4, 8, 4],
            _ => [18, 8, 18, 4, 18, 10, 7, 7, 8, 4],
        };
        let mut x = self.r.below(w.iter().sum());
        let mut kind = 0;
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                kind = i;
                break;
            }
            x -= n;
        }
        use p::MessageType::*;
        let (ty, body, st) = match kind {
            0 => {
                self.n += 1;
                let mut b = p::CastAddBody { text: format!("cast {}", self.n), ..Default::default() };
                if self.r.chance(500) {
                    b.parent = Some(if self.r.chance(700) {
                        p::cast_add_body::Parent::ParentCastId(self.target())
                    } else {
                        p::cast_add_body::Parent::ParentUrl(["https://a.example/x", "https://a.example/xy", "chain://1/erc721:0xaa"][self.r.below(3) as usize].into())
                    });
                }
                if self.r.chance(400) {
                    let v = self.k.fids.clone();
                    let k = self.r.range(1, 3);
                    for _ in 0..k {
                        b.mentions.push(*self.r.pick(&v));
                    }
                    b.mentions_positions = (0..k as u32).collect();
                }
                (CastAdd, Body::CastAddBody(b), St::Cast)
            }
            1 => {
                let own: Vec<_> = self.casts.iter().filter(|c| c.0 == f).cloned().collect();
                let h = if own.is_empty() || self.r.chance(100) { self.target().hash } else { self.r.pick(&own).1.clone() };
                (CastRemove, Body::CastRemoveBody(p::CastRemoveBody { target_hash: h }), St::Cast)
            }
            2 => {
                let t = ["follow", "block", "fol"][self.r.below(3) as usize];
                let v = self.k.fids.clone();
                let to = if self.r.chance(700) { *self.r.pick(&v) } else { self.r.range(1, 6) };
                let add = self.r.chance(700);
                (
                    if add { LinkAdd } else { LinkRemove },
                    Body::LinkBody(p::LinkBody {
                        r#type: t.into(),
                        display_timestamp: if self.r.chance(300) { Some(self.r.below(1000) as u32 + 1) } else { Option::None },
                        target: Some(p::link_body::Target::TargetFid(to)),
                    }),
                    St::Link,
                )
            }
            3 => {
                let t = ["follow", "block", "fol"][self.r.below(3) as usize];
                let mut keep: BTreeSet<u64> = BTreeSet::new();
                let v = self.k.fids.clone();
                for _ in 0..self.r.range(1, 4) {
                    keep.insert(*self.r.pick(&v));
                }
                (
                    LinkCompactState,
                    Body::LinkCompactStateBody(p::LinkCompactStateBody { r#type: t.into(), target_fids: keep.into_iter().collect() }),
                    St::Link,
                )
            }
            4 => {
                let add = self.r.chance(700);
                let target = if self.r.chance(700) {
                    p::reaction_body::Target::TargetCastId(self.target())
                } else {
                    p::reaction_body::Target::TargetUrl(["https://a.example/x", "https://a.example/xy"][self.r.below(2) as usize].into())
                };
                let target = if self.r.chance(if self.focus == "B17" { 800 } else { 200 }) { p::reaction_body::Target::TargetUrl(gen::token_url(&mut self.r)) } else { target };
                (
                    if add { ReactionAdd } else { ReactionRemove },
                    Body::ReactionBody(p::ReactionBody { r#type: self.r.range(1, 2) as i32, target: Some(target) }),
                    St::React,
                )
            }
            5 => {
                let t = [p::UserDataType::Pfp, p::UserDataType::Display, p::UserDataType::Bio, p::UserDataType::Url, p::UserDataType::Location][self.r.below(5) as usize];
                self.n += 1;
                let value = match t {
                    p::UserDataType::Location => format!("geo:{}.00,{}.00", self.n % 80, self.n % 90),
                    p::UserDataType::Url | p::UserDataType::Pfp => format!("https://u.example/{}", self.n),
                    _ => format!("v{}", self.n),
                };
                (UserDataAdd, Body::UserDataBody(p::UserDataBody { r#type: t as i32, value }), St::Data)
            }
            6 => {
                // claim a name, or an address
                let (t, value) = if self.r.chance(700) {
                    let names: Vec<String> = self.names.keys().cloned().collect();
                    let mine: Vec<String> = self.names.iter().filter(|(_, x)| x.0 == f).map(|(k, _)| k.clone()).collect();
                    let v = if !mine.is_empty() && self.r.chance(700) {
                        self.r.pick(&mine).clone()
                    } else if !names.is_empty() && self.r.chance(800) {
                        self.r.pick(&names).clone()
                    } else if self.r.chance(500) {
                        String::new()
                    } else {
                        format!("e{}.eth", self.r.below(4))
                    };
                    (p::UserDataType::Username, v)
                } else {
                    let mine: Vec<u64> = self.verified.iter().filter(|x| x.0 == f).map(|x| x.1).collect();
                    let w = if !mine.is_empty() && self.r.chance(800) { *self.r.pick(&mine) } else { self.r.below(3) };
                    (p::UserDataType::UserDataPrimaryAddressEthereum, eth_text(gen::eth(&format!("w{f}"), w).address().as_slice()))
                };
                (UserDataAdd, Body::UserDataBody(p::UserDataBody { r#type: t as i32, value }), St::Data)
            }
            7 => {
                let t = self.now() - self.r.below(30) as u32;
                let name = format!("e{}.eth", self.r.below(4));
                (
                    UsernameProof,
                    Body::UsernameProofBody(p::UserNameProof {
                        timestamp: t as u64 + gen::FC_EPOCH,
                        name: name.into_bytes(),
                        owner: gen::custody(f, 0).address().to_vec(),
                        signature: vec![5; 65],
                        fid: f,
                        r#type: p::UserNameType::UsernameTypeEnsL1 as i32,
                    }),
                    St::Proof,
                )
            }
            8 => {
                let w = self.r.below(3);
                self.verified.push((f, w));
                if self.r.chance(250) {
                    (VerificationAddEthAddress, Body::VerificationAddAddressBody(gen::verification_sol(f, &gen::signer(f, 90 + w), &[3; 32], NET)), St::Verif)
                } else {
                    (VerificationAddEthAddress, Body::VerificationAddAddressBody(gen::verification_eth(f, &gen::eth(&format!("w{f}"), w), &[3; 32], NET)), St::Verif)
                }
            }
            _ => {
                let w = self.r.below(3);
                let sol = self.r.chance(250);
                (
                    VerificationRemove,
                    Body::VerificationRemoveBody(p::VerificationRemoveBody {
                        address: if sol { gen::signer(f, 90 + w).verifying_key().to_bytes().to_vec() } else { gen::eth(&format!("w{f}"), w).address().to_vec() },
                        protocol: if sol { p::Protocol::Solana } else { p::Protocol::Ethereum } as i32,
                    }),
                    St::Verif,
                )
            }
        };
        let mut ts = self.ts(f, st);
        if st == St::Proof {
            if let Body::UsernameProofBody(b) = &body {
                ts = (b.timestamp - gen::FC_EPOCH) as u32;
            }
        }
        let key = self.key(f);
        let m = gen::message(f, ty, ts, body, &key, NET);
        if ty == CastAdd {
            self.casts.push((f, m.hash.clone(), ts));
        }
        Some(m)
    }
    /// Take a good message and spoil it in one way.
    fn spoil(&mut self, m: &p::Message) -> (p::Message, String) {
        let f = fid(m);
        let key = self.signers[&f].iter().find(|x| x.1).map(|x| gen::signer(f, x.0)).unwrap_or(gen::signer(f, 0));
        let mut x = m.clone();
        let how = ["signature", "hash", "body", "signer", "network", "future", "fid", "scheme", "trunc", "data_bytes", "claim", "cover"][self.r.below(12) as usize];
        match how {
            "signature" => {
                let i = self.r.below(64) as usize;
                x.signature[i] ^= 1 << self.r.below(8);
            }
            "hash" => {
                let i = self.r.below(20) as usize;
                x.hash[i] ^= 1 << self.r.below(8);
                use ed25519_dalek::Signer;
                x.signature = key.sign(&x.hash).to_bytes().to_vec();
            }
            // the content changes under an unchanged hash and signature
            "body" => x.data.as_mut().unwrap().timestamp ^= 1,
            "signer" => x = gen::seal(m.data.clone().unwrap(), &gen::signer(f, 77)),
            "network" => {
                let mut d = m.data.clone().unwrap();
                d.network = p::FarcasterNetwork::None as i32;
                x = gen::seal(d, &key);
            }
            "future" => {
                let mut d = m.data.clone().unwrap();
                d.timestamp = self.now() + 100_000;
                x = gen::seal(d, &key);
            }
            // signed by one account's key, in another's name
            "fid" => {
                let mut d = m.data.clone().unwrap();
                let other: Vec<u64> = self.k.fids.iter().copied().filter(|y| *y != f).collect();
                d.fid = *self.r.pick(&other);
                x = gen::seal(d, &key);
            }
            "scheme" => {
                if self.r.chance(500) {
                    x.signature_scheme = p::SignatureScheme::Eip712 as i32;
                } else {
                    x.hash_scheme = 0;
                }
            }
            "trunc" => {
                x.signature.truncate(self.r.below(64) as usize);
            }
            // the covered bytes travel along untouched, beside content they do not say
            "cover" => {
                x.data_bytes = Some(m.data.as_ref().unwrap().encode_to_vec());
                let d = x.data.as_mut().unwrap();
                match self.r.below(3) {
                    0 => d.timestamp ^= 1 << self.r.below(8),
                    1 => d.timestamp = self.now() + 100_000,
                    _ => match d.body.as_mut() {
                        Some(Body::VerificationAddAddressBody(b)) => b.address[3] ^= 1,
                        Some(Body::CastAddBody(b)) => b.text.push_str(" and more"),
                        Some(Body::LinkBody(b)) => b.r#type = "block".into(),
                        Some(Body::UserDataBody(b)) => b.value.push('x'),
                        _ => d.timestamp += 2,
                    },
                }
                if x.data == m.data {
                    x.data.as_mut().unwrap().timestamp += 1;
                }
            }
            "data_bytes" => {
                // the wire form carries other bytes than the ones the hash and signature cover
                let mut d = m.data.clone().unwrap();
                d.timestamp ^= 1;
                x.data_bytes = Some(d.encode_to_vec());
            }
            _ => {
                let mut d = m.data.clone().unwrap();
                match d.body.as_mut() {
                    Some(Body::VerificationAddAddressBody(b)) => {
                        let i = self.r.below(60) as usize;
                        b.claim_signature[i] ^= 4;
                        x = gen::seal(d, &key);
                    }
                    _ => x.signature[3] ^= 1,
                }
            }
        }
        (x, how.to_string())
    }
}

impl World for Ledger {
    fn name(&self) -> &'static str {
        "ledger"
    }
    fn generate(&self, seed: u64, focus: &str, thorough: bool) -> Case {
        let mut r = Rng::new(seed);
        let nf = r.range(3, 5);
        let k = Knobs {
            nodes: match focus {
                "A02" | "A04" | "A09" | "A10" => r.range(2, 3) as usize,
                _ => r.range(1, 2) as usize,
            },
            shards: r.range(1, 2) as u32,
            limited: focus == "B02" || (focus != "B14" && r.chance(300)),
            reader: r.chance(400),
            fids: gen::accounts(&mut r.fork("accounts"), nf),
            ties: focus == "G01" && r.fork("ties").chance(500),
        };
        let mut g = G {
            r: r.fork("plan"),
            k: k.clone(),
            plan: vec![],
            t: 0,
            n: 0,
            fname_id: 0,
            casts: vec![],
            signers: BTreeMap::new(),
            names: BTreeMap::new(),
            verified: vec![],
            focus: focus.into(),
            last_ts: HashMap::new(),
            sent: vec![],
        };
        for n in 0..k.nodes {
            g.push(Op::Start { node: n });
        }
        for f in k.fids.clone() {
            let u = g.unix() - 1000;
            g.n += 1;
            let (n1, units) = (g.n * 8, g.r.range(1, 2) as u32);
            if !g.r.chance(60) {
                g.chain(gen::id_register(f, gen::custody(f, 0).address().to_vec(), false, u, n1));
            }
            // storage that lapses while the system runs, alone or beside other storage
            let lapses = g.r.chance(if focus == "B02" || focus == "A04" { 400 } else { 150 });
            if lapses {
                let at = g.r.below(400);
                g.chain(gen::rent(f, units, crate::sys::BASE_UNIX + at - 4 * YEAR, n1 + 6));
            }
            if !lapses || g.r.chance(600) {
                g.chain(gen::rent(f, units, u, n1 + 1));
            }
            let ns = g.r.range(1, 2);
            let mut v = vec![];
            for i in 0..ns {
                g.chain(gen::signer_event(f, gen::pubkey(f, i), true, u, n1 + 2 + i));
                v.push((i, true));
            }
            g.signers.insert(f, v);
        }
        for s in 0..=k.shards {
            g.push(Op::Make { shard: s, by: 0, max: 100, how: "fresh".into() });
        }
        let faults = match focus {
            "A02" => 130,
            "A04" | "A09" | "A10" => 70,
            _ => 30,
        };
        let n = if thorough { r.range(150, 500) } else { r.range(60, 160) };
        let nodes = k.nodes as u64;
        for i in 0..n {
            let x = g.r.below(1000);
            if x < faults {
                let node = g.r.below(nodes) as usize;
                match g.r.below(10) {
                    0..=4 => {
                        let (at, lose) = (g.r.below(5), if g.r.chance(300) { g.r.range(1, 6) as usize } else { 0 });
                        g.push(Op::Crash { node, at, lose });
                    }
                    5 => {
                        let lose = if g.r.chance(400) { g.r.range(1, 6) as usize } else { 0 };
                        g.push(Op::Stop { node, lose });
                    }
                    6 => {
                        let at = g.r.below(4);
                        g.push(Op::DiskError { node, at });
                    }
                    7 => {
                        let ms = *g.r.pick(&[-3_600_000i64, -2000, -500, 500, 2000, 60_000, 86_400_000]);
                        g.push(Op::Skew { node, ms });
                    }
                    _ => {}
                }
                for q in 0..g.r.below(4) {
                    let node = if q == 0 { node } else { g.r.below(nodes) as usize };
                    g.push(Op::Start { node });
                }
                continue;
            }
            if focus == "G01" && g.r.chance(90) {
                let node = g.r.below(nodes) as usize;
                if g.r.chance(250) {
                    let (at, lose) = (g.r.below(3), if g.r.chance(300) { g.r.range(1, 6) as usize } else { 0 });
                    g.push(Op::Crash { node, at, lose });
                } else if g.r.chance(150) {
                    let at = g.r.below(3);
                    g.push(Op::DiskError { node, at });
                }
                let mut keep = || *g.r.pick(&[0u64, 1, 3, 60, 600, 3_600, 7_200, 86_400, 3 * 86_400, 100 * 365 * 86_400]);
                let (events, blocks) = (keep(), keep());
                let how = if g.r.chance(500) { "jobs" } else { "direct" };
                let page = *g.r.pick(&[1usize, 2, 3, 7, 1000]);
                let synced = g.r.chance(800);
                g.push(Op::House { node, how: how.into(), events, blocks, synced, page });
                continue;
            }
            match g.r.below(100) {
                0..=54 => {
                    let m = g.user_message().unwrap();
                    let bad_pm = if focus == "B09" { 450 } else { 60 };
                    if g.r.chance(if focus == "B07" { 300 } else { 60 }) {
                        let node = g.r.below(nodes) as usize;
                        let (m2, bad) = if g.r.chance(250) {
                            let (a, b) = g.spoil(&m);
                            (a, Some(b))
                        } else {
                            (m.clone(), None)
                        };
                        g.push(Op::Simulate { node, m: enc(&m2), bad });
                    }
                    if g.r.chance(if focus == "B07" { 250 } else { 50 }) {
                        let node = g.r.below(nodes) as usize;
                        let mut v = vec![enc(&m)];
                        for _ in 0..g.r.range(1, 5) {
                            let x = match g.r.below(10) {
                                0..=4 if !g.sent.is_empty() => {
                                    let all = g.sent.clone();
                                    let own: Vec<_> = all.iter().filter(|x| fid(x) == fid(&m)).cloned().collect();
                                    if own.is_empty() || g.r.chance(400) { g.r.pick(&all).clone() } else { g.r.pick(&own).clone() }
                                }
                                5 => {
                                    let base = g.user_message().unwrap();
                                    v.push(format!("!{}", enc(&g.spoil(&base).0)));
                                    continue;
                                }
                                _ => g.user_message().unwrap(),
                            };
                            v.push(enc(&x));
                        }
                        g.r.shuffle(&mut v);
                        g.push(Op::Trial { node, msgs: v });
                    }
                    if g.r.chance(bad_pm) {
                        let (x, how) = g.spoil(&m);
                        g.push(Op::Msg { m: enc(&x), bad: Some(how) });
                        if g.r.chance(500) {
                            continue;
                        }
                    }
                    g.push(Op::Msg { m: enc(&m), bad: None });
                    g.sent.push(m);
                }
                55..=58 => {
                    // the same message again
                    if !g.sent.is_empty() {
                        let v = g.sent.clone();
                        let m = g.r.pick(&v).clone();
                        g.push(Op::Msg { m: enc(&m), bad: None });
                    }
                }
                59..=63 => {
                    let f = g.fid();
                    let u = g.unix();
                    g.n += 1;
                    let n1 = g.n;
                    match g.r.below(if focus == "B05" { 20 } else { 8 }) {
                        0 => {
                            let un = 1;
                            let at = if g.r.chance(300) { g.unix() + g.r.below(200) - 4 * YEAR } else { u };
                            g.chain(gen::rent(f, un, at, n1));
                        }
                        1 => {
                            g.chain(gen::id_register(f, gen::custody(f, g.n).address().to_vec(), true, u, n1));
                        }
                        2 | 3 => {
                            let i = g.r.below(4);
                            // a removed key never comes back on chain
                            if !g.signers[&f].iter().any(|x| x.0 == i) {
                                g.signers.get_mut(&f).unwrap().push((i, true));
                                g.chain(gen::signer_event(f, gen::pubkey(f, i), true, u, n1));
                            }
                        }
                        _ => {
                            let live: Vec<u64> = g.signers[&f].iter().filter(|x| x.1).map(|x| x.0).collect();
                            if !live.is_empty() && (focus == "B05" || g.r.chance(400)) {
                                let i = *g.r.pick(&live);
                                for x in g.signers.get_mut(&f).unwrap() {
                                    if x.0 == i {
                                        x.1 = false;
                                    }
                                }
                                g.chain(gen::signer_event(f, gen::pubkey(f, i), false, u, n1));
                                if g.r.chance(700) {
                                    let j = 4 + g.n % 60;
                                    g.signers.get_mut(&f).unwrap().push((j, true));
                                    g.n += 1;
                                    let n2 = g.n;
                                    g.chain(gen::signer_event(f, gen::pubkey(f, j), true, u, n2));
                                }
                            }
                        }
                    }
                }
                64..=67 => {
                    let names = ["ann", "bob", "cat", "dan"];
                    let name = names[g.r.below(if focus == "B06" { 4 } else { 3 }) as usize].to_string();
                    let (owner, at) = g.names.get(&name).copied().unwrap_or((0, 0));
                    let mut to = g.fid();
                    if g.r.chance(100) {
                        to = 0;
                    }
                    if to == owner && (owner == 0 || !g.r.chance(300)) {
                        continue;
                    }
                    g.fname_id += 1;
                    let u = if g.r.chance(850) { g.unix().max(at + 1) } else { at.max(g.unix() - 100) - g.r.below(3) };
                    let id = g.fname_id;
                    let t = gen::fname_transfer(id, &name, to, owner, u, vec![9; 20]);
                    g.push(Op::Fname { m: enc(&t) });
                    if u > at {
                        g.names.insert(name, (to, u));
                    }
                }
                68..=89 => {
                    let shard = if g.r.chance(250) { 0 } else { g.r.range(1, k.shards as u64) as u32 };
                    let by = g.r.below(nodes) as usize;
                    let max = *g.r.pick(&[1usize, 2, 4, 8, 20]);
                    let how = match g.r.below(100) {
                        0..=54 => "fresh",
                        55..=69 => "lag",
                        70..=84 => "redo",
                        _ => "rival",
                    };
                    g.t += g.r.range(0, 2);
                    g.push(Op::Make { shard, by, max, how: how.into() });
                }
                90..=92 => {
                    let (node, shard, c) = (g.r.below(nodes) as usize, g.r.range(0, k.shards as u64) as u32, g.r.range(1, 4) as usize);
                    g.push(Op::Sync { node, shard, n: c });
                }
                93..=95 => {
                    let ms = if focus == "G01" { *g.r.pick(&[1000u64, 60_000, 600_000, 3_600_000, 86_400_000]) } else { *g.r.pick(&[200u64, 1000, 3000, 60_000]) };
                    g.t += ms / 1000;
                    g.push(Op::Clock { ms });
                    if g.r.chance(40) {
                        g.leap();
                    }
                }
                96..=97 => {
                    let (shard, by, sd) = (g.r.range(1, k.shards as u64) as u32, g.r.below(nodes) as usize, g.r.below(1 << 30));
                    let how = ["root", "drop", "forge", "account", "swap"][g.r.below(5) as usize];
                    g.push(Op::Tamper { shard, by, how: how.into(), seed: sd });
                }
                _ => {
                    let (node, shard, sd) = (g.r.below(nodes) as usize, g.r.range(1, k.shards as u64) as u32, g.r.below(1 << 30));
                    g.push(Op::Audit { node, shard, seed: sd });
                }
            }
            let _ = i;
        }
        Case { world: "ledger".into(), seed, knobs: serde_json::to_value(&k).unwrap(), plan: g.plan }
    }

    fn run(&self, case: &Case, sim: &mut Sim) {
        let k: Knobs = serde_json::from_value(case.knobs.clone()).unwrap();
        let lim = |v: &[(St, [u32; 3])]| v.iter().copied().collect::<HashMap<_, _>>();
        let limits = if k.limited { StoreLimits::new(test_helper::limits::test(), test_helper::limits::test(), test_helper::limits::test()) } else { StoreLimits::default() };
        let base = std::env::current_dir().unwrap();
        let mut w = Run {
            c: Cluster::new(&base, k.nodes, k.shards, limits),
            models: (0..=k.shards).map(|_| ShardM { limit: lim(if k.limited { &TEST_LIMITS } else { &FULL_LIMITS }), ..Default::default() }).collect(),
            pools: (0..=k.shards).map(|_| vec![]).collect(),
            bad: HashMap::new(),
            k,
            elapsed: 0,
            dead: false,
            rng: Rng::new(case.seed).fork("run"),
            scratch: 0,
        };
        w.c.ties = w.k.ties;
        if w.k.reader && w.k.nodes > 1 {
            w.c.reader = Some(w.k.nodes - 1);
        }
        for (i, v) in case.plan.iter().enumerate() {
            let op: Op = serde_json::from_value(v.clone()).unwrap();
            w.step(sim, i, op);
            if w.dead {
                break;
            }
        }
        if !w.dead {
            w.finish(sim);
        }
        // no destructor of the system needs to run
        std::mem::forget(w);
    }
}

// ---------------------------------------------------------------- execution

pub struct Run {
    pub c: Cluster,
    pub models: Vec<ShardM>,
    pools: Vec<Vec<MempoolMessage>>,
    bad: HashMap<Vec<u8>, String>,
    k: Knobs,
    elapsed: u64,
    dead: bool,
    rng: Rng,
    scratch: u64,
}

pub fn of_shard_zero(m: &p::Message) -> bool {
    use p::MessageType::*;
    m.data.as_ref().map_or(false, |d| {
        matches!(d.r#type(), VerificationAddEthAddress | VerificationRemove | LendStorage | KeyAdd | KeyRemove | ChannelUpdate | ChannelMember | ChannelPin | ChannelModerate)
    })
}

impl Run {
    fn step(&mut self, sim: &mut Sim, i: usize, op: Op) {
        match op {
            Op::Chain { m } => {
                let e: p::OnChainEvent = dec(&m);
                sim.log(format!("{i} chain {:?} fid {}", e.r#type(), e.fid));
                let h = home(e.fid, self.k.shards) as usize;
                self.pools[0].push(MempoolMessage::OnchainEvent(e.clone()));
                self.pools[h].push(MempoolMessage::OnchainEvent(e));
            }
            Op::Fname { m } => {
                let t: p::FnameTransfer = dec(&m);
                let pr = t.proof.as_ref().unwrap();
                sim.log(format!("{i} fname {} {}->{}", String::from_utf8_lossy(&pr.name), t.from_fid, pr.fid));
                for s in 1..=self.k.shards as usize {
                    self.pools[s].push(MempoolMessage::FnameTransfer(t.clone()));
                }
            }
            Op::Msg { m, bad } => {
                let m: p::Message = dec(&m);
                sim.log(format!("{i} {} {}", msg_text(&m), bad.clone().unwrap_or_default()));
                if let Some(b) = bad {
                    sim.count(&format!("fault.message_{b}"));
                    self.bad.insert(m.encode_to_vec(), b);
                }
                let s = if of_shard_zero(&m) { 0 } else { home(fid(&m), self.k.shards) as usize };
                self.pools[s].push(MempoolMessage::UserMessage(m));
            }
            Op::Make { shard, by, max, how } => {
                let by = if by >= self.k.nodes || self.c.reader == Some(by) { 0 } else { by };
                if shard > self.k.shards {
                    return;
                }
                sim.log(format!("{i} make shard {shard} by n{by} max {max} {how}"));
                if shard == 0 {
                    self.make_block(sim, by, max, &how);
                } else {
                    self.make(sim, shard, by, max, &how);
                }
            }
            Op::Sync { node, shard, n } => {
                if self.c.nodes[node].up && shard <= self.k.shards {
                    sim.log(format!("{i} sync n{node} s{shard} {n}"));
                    self.catch_up(sim, node, shard, n);
                }
            }
            Op::Crash { node, at, lose } => {
                if self.c.nodes[node].up {
                    sim.log(format!("{i} arm crash n{node} in {at}"));
                    let d = self.c.nodes[node].dir.clone();
                    self.c.armed.lock().unwrap().at.insert(d, (rocksdb::sim::Action::Crash, at));
                    // what the machine will lose when it goes down
                    self.c.nodes[node].lost = lose > 0;
                }
            }
            Op::DiskError { node, at } => {
                if self.c.nodes[node].up {
                    sim.log(format!("{i} arm disk error n{node} in {at}"));
                    let d = self.c.nodes[node].dir.clone();
                    self.c.armed.lock().unwrap().at.insert(d, (rocksdb::sim::Action::Fail, at));
                }
            }
            Op::Stop { node, lose } => {
                if self.c.nodes[node].up {
                    sim.log(format!("{i} kill n{node}"));
                    sim.count("fault.kill");
                    self.c.down(node);
                    if lose > 0 {
                        self.c.lose(sim, node, lose);
                    }
                }
            }
            Op::Start { node } => {
                if node < self.k.nodes && !self.c.nodes[node].up {
                    if std::mem::take(&mut self.c.nodes[node].power) {
                        self.c.lose(sim, node, 1 + (i % 4));
                    }
                    if i > 5 {
                        sim.count("fault.restart");
                    }
                    self.c.start(sim, node);
                }
            }
            Op::Clock { ms } => {
                self.elapsed += ms;
                crate::sys::set_elapsed_ms(self.elapsed);
            }
            Op::Skew { node, ms } => {
                if node < self.k.nodes {
                    sim.count("fault.clock_skew");
                    sim.log(format!("{i} n{node} clock off by {ms}"));
                    self.c.nodes[node].skew = ms;
                }
            }
            Op::Simulate { node, m, bad } => self.simulate(sim, node, dec(&m), bad),
            Op::Trial { node, msgs } => self.trial(sim, node, msgs.iter().map(|m| (dec(m.trim_start_matches('!')), m.starts_with('!'))).collect()),
            Op::Audit { node, shard, seed } => {
                if node < self.k.nodes && shard <= self.k.shards && self.c.at_head(node, shard) {
                    sim.log(format!("{i} audit n{node} s{shard}"));
                    self.audit(sim, node, shard, seed);
                }
            }
            Op::House { node, how, events, blocks, synced, page } => {
                if node < self.k.nodes && self.c.nodes[node].up {
                    sim.log(format!("{i} housekeeping n{node} {how}: events {events} s, blocks {blocks} s, synced {synced}, page {page}"));
                    self.house(sim, node, &how, events, blocks, synced, page);
                }
            }
            Op::Tamper { shard, by, how, seed } => {
                let by = if self.c.reader == Some(by) { 0 } else { by };
                if by < self.k.nodes && shard <= self.k.shards {
                    self.tamper(sim, shard, by, &how, seed);
                }
            }
        }
    }

    fn catch_up(&mut self, sim: &mut Sim, n: usize, s: u32, max: usize) {
        for _ in 0..max {
            if self.dead || !self.c.nodes[n].up || self.c.at_head(n, s) {
                return;
            }
            sim.count("probe.lagging_replay");
            self.c.apply(sim, n, s, "replay");
            self.stop_if_broken(sim);
        }
    }
    fn stop_if_broken(&mut self, sim: &Sim) {
        // once state and record part, every later comparison would repeat it
        if sim.out.violations.iter().any(|v| {
            matches!(v.rule.as_str(), "replica_state" | "torn_state" | "commit_not_recorded" | "state" | "from_nowhere" | "honest_rejected" | "stored_events_differ")
        }) {
            self.dead = true;
        }
    }
    fn ready(&mut self, sim: &mut Sim, by: usize, s: u32) -> bool {
        if !self.c.nodes[by].up {
            return false;
        }
        let n = self.c.chains[s as usize].len();
        self.catch_up(sim, by, s, n + 1);
        !self.dead && self.c.nodes[by].up && self.c.at_head(by, s)
    }
    fn seal_message(m: &MempoolMessage) -> Option<&p::Message> {
        match m {
            MempoolMessage::UserMessage(m) => Some(m),
            _ => None,
        }
    }

    /// Which of the waiting messages go in the next chunk.  Combinations whose outcome within one
    /// block the model does not define are split over two blocks.
    fn pick(&mut self, s: u32, max: usize) -> Vec<MempoolMessage> {
        let mut out: Vec<MempoolMessage> = vec![];
        let mut rest = vec![];
        let mut used: BTreeSet<(u64, St)> = BTreeSet::new();
        let mut compact: BTreeSet<u64> = BTreeSet::new();
        let mut closed: BTreeSet<u64> = BTreeSet::new();
        let mut spoken: BTreeSet<u64> = BTreeSet::new();
        let mut fname_busy: BTreeSet<u64> = BTreeSet::new();
        let mut names: BTreeSet<Vec<u8>> = BTreeSet::new();
        let mut data: BTreeSet<u64> = BTreeSet::new();
        let mut verif: BTreeSet<u64> = BTreeSet::new();
        let mut removed: BTreeSet<u64> = BTreeSet::new();
        let mut stop_events = false;
        // block events first: they wait in sequence
        if s > 0 {
            let from = self.models[s as usize].seq;
            let evs: Vec<p::BlockEvent> = self.c.block_events.iter().filter(|e| e.seqnum() > from).cloned().collect();
            for e in evs {
                if stop_events || out.len() >= max.max(4) {
                    break;
                }
                if let Some(m) = event_message(&e) {
                    let f = fid(&m);
                    // one verification change of an account at a time
                    if !verif.insert(f) {
                        stop_events = true;
                        continue;
                    }
                }
                out.push(MempoolMessage::BlockEvent { for_shard: s, message: e });
            }
        }
        for m in std::mem::take(&mut self.pools[s as usize]) {
            if out.len() >= max {
                rest.push(m);
                continue;
            }
            let ok = match &m {
                MempoolMessage::OnchainEvent(e) => {
                    let rm = matches!(&e.body, Some(p::on_chain_event::Body::SignerEventBody(b)) if b.event_type == p::SignerEventType::Remove as i32);
                    let _ = rm;
                    !closed.contains(&e.fid) || s == 0
                }
                MempoolMessage::FnameTransfer(t) => {
                    let pr = t.proof.as_ref().unwrap();
                    let (a, b) = (t.from_fid, pr.fid);
                    if spoken.contains(&a) || spoken.contains(&b) || removed.contains(&a) || removed.contains(&b) || fname_busy.contains(&a) || fname_busy.contains(&b) || names.contains(&pr.name) || verif.contains(&a) {
                        false
                    } else {
                        names.insert(pr.name.clone());
                        for x in [a, b] {
                            if x != 0 {
                                fname_busy.insert(x);
                                closed.insert(x);
                            }
                        }
                        true
                    }
                }
                MempoolMessage::UserMessage(u) => {
                    let f = fid(u);
                    let st = store_of(u);
                    if s == 0 {
                        true
                    } else if closed.contains(&f) {
                        false
                    } else {
                        let st = st.unwrap();
                        let lone = is_compact(u);
                        if ((self.k.limited || st == St::Proof) && used.contains(&(f, st)))
                            || (st == St::Link && (compact.contains(&f) || (lone && used.contains(&(f, St::Link)))))
                            || (st == St::Data && verif.contains(&f))
                            || (st == St::Proof && data.contains(&f))
                        {
                            false
                        } else {
                            used.insert((f, st));
                            spoken.insert(f);
                            if lone {
                                compact.insert(f);
                            }
                            if st == St::Data {
                                data.insert(f);
                            }
                            true
                        }
                    }
                }
                _ => true,
            };
            if ok {
                out.push(m);
            } else {
                rest.push(m);
                // keep each account's order
                if let Some(u) = Self::seal_message(rest.last().unwrap()) {
                    if s > 0 {
                        closed.insert(fid(u));
                    }
                } else if let MempoolMessage::OnchainEvent(e) = rest.last().unwrap() {
                    closed.insert(e.fid);
                } else if let MempoolMessage::FnameTransfer(t) = rest.last().unwrap() {
                    names.insert(t.proof.as_ref().unwrap().name.clone());
                    closed.insert(t.from_fid);
                    closed.insert(t.proof.as_ref().unwrap().fid);
                }
            }
        }
        self.pools[s as usize] = rest;
        out
    }
    fn put_back(&mut self, s: u32, v: Vec<MempoolMessage>) {
        let mut v: Vec<_> = v.into_iter().filter(|m| !matches!(m, MempoolMessage::BlockEvent { .. })).collect();
        v.extend(std::mem::take(&mut self.pools[s as usize]));
        self.pools[s as usize] = v;
    }

    fn make_block(&mut self, sim: &mut Sim, by: usize, max: usize, how: &str) {
        if !self.ready(sim, by, 0) {
            return;
        }
        let msgs = self.pick(0, max);
        let sc = match self.c.propose_block(sim, by, msgs.clone()) {
            Some(c) => c,
            None => return self.put_back(0, msgs),
        };
        let b = self.c.block_of(&sc);
        self.vote_and_decide_block(sim, by, how, b);
    }
    fn vote_and_decide_block(&mut self, sim: &mut Sim, by: usize, how: &str, b: p::Block) {
        for n in 0..self.k.nodes {
            if how != "lag" && self.c.nodes[n].up && self.c.can_vote(n, 0) {
                match self.c.validate_block(sim, n, &b) {
                    Some(ok) => {
                        sim.check("A10", "honest_rejected", ok, || format!("node {n} rejected the block honest node {by} proposed for shard 0 height {}", b.header.as_ref().unwrap().height.unwrap().block_number));
                        self.stop_if_broken(sim);
                        if self.dead {
                            return;
                        }
                    }
                    None => {}
                }
            }
        }
        let voted: Vec<usize> = (0..self.k.nodes).filter(|n| self.c.nodes[*n].up && self.c.can_vote(*n, 0)).collect();
        self.events_follow(sim, &b);
        self.c.decide_block(b);
        // a node that died since still has the decision to apply when it returns
        for n in 0..self.k.nodes {
            if self.c.nodes[n].up && voted.contains(&n) && (how != "lag" || n == by) {
                self.c.apply(sim, n, 0, "vote");
                self.stop_if_broken(sim);
                if self.dead {
                    return;
                }
            }
        }
        self.first_apply(sim, 0);
        self.reader_follows(sim, 0, how);
    }
    fn reader_follows(&mut self, sim: &mut Sim, s: u32, how: &str) {
        if let (Some(n), false, false) = (self.c.reader, how == "lag", self.dead) {
            if self.c.nodes[n].up {
                let h = self.c.chains[s as usize].len();
                self.catch_up(sim, n, s, h);
            }
        }
    }
    /// If nobody has applied the newest decision, some node must, so that the record exists.
    fn first_apply(&mut self, sim: &mut Sim, s: u32) {
        let h = self.c.chains[s as usize].len();
        for _ in 0..12 {
            if self.dead || !self.c.chains[s as usize][h - 1].digest.is_empty() {
                return;
            }
            for n in 0..self.k.nodes {
                if !self.c.nodes[n].up {
                    self.c.start(sim, n);
                    self.stop_if_broken(sim);
                    if self.dead {
                        return;
                    }
                }
                if self.c.nodes[n].up {
                    self.catch_up(sim, n, s, h);
                }
            }
        }
        panic!("no node could apply shard {s} height {h}");
    }
    /// The block's own record of what it makes known to the other shards.
    fn events_follow(&mut self, sim: &mut Sim, b: &p::Block) {
        let mut next = self.c.block_events.last().map_or(0, |e| e.seqnum()) + 1;
        for e in &b.events {
            sim.check("A07", "event_sequence", e.seqnum() == next, || format!("block {} carries event {} where {next} was due", b.header.as_ref().unwrap().height.unwrap().block_number, e.seqnum()));
            next = e.seqnum() + 1;
        }
    }

    fn make(&mut self, sim: &mut Sim, s: u32, by: usize, max: usize, how: &str) {
        if !self.ready(sim, by, s) {
            return;
        }
        let mut msgs = self.pick(s, max);
        if how == "redo" && !self.c.block_events.is_empty() && msgs.len() < max {
            // an event already applied is delivered again
            let seq = self.models[s as usize].seq;
            let old: Vec<_> = self.c.block_events.iter().filter(|e| e.seqnum() <= seq).cloned().collect();
            if !old.is_empty() {
                sim.count("fault.block_event_redelivered");
                let e = self.rng.pick(&old).clone();
                msgs.insert(0, MempoolMessage::BlockEvent { for_shard: s, message: e });
            }
        }
        let offered = msgs.clone();
        let rival = if how == "rival" { self.rival(sim, s, by, &mut msgs) } else { None };
        if self.dead || !self.c.nodes[by].up || !self.c.can_vote(by, s) {
            return self.put_back(s, offered);
        }
        let sc = match self.c.propose(sim, by, s, msgs.clone()) {
            Some(c) => c,
            None => return self.put_back(s, msgs),
        };
        let chunk = self.c.chunk_of(s, &sc);
        // an account with storage keeps its place in the block
        for m in &offered {
            if let Some(u) = Self::seal_message(m) {
                let at = unix_of(&chunk);
                let units = self.models[s as usize].fids.get(&fid(u)).map_or([0; 3], |f| f.units(at));
                let there = chunk.transactions.iter().any(|t| t.user_messages.iter().any(|x| x == u));
                if units != [0; 3] {
                    sim.check("B02", "paid_storage_ignored", there, || format!("{}: the account has {units:?} storage units, yet its message was left out", msg_text(u)));
                } else if there {
                    let buys = chunk.transactions.iter().filter(|t| t.fid == fid(u)).flat_map(|t| &t.system_messages).any(|v| match &v.on_chain_event {
                        Some(e) => match &e.body {
                            Some(p::on_chain_event::Body::StorageRentEventBody(b)) => at < rent(e.block_timestamp, b.units).2,
                            _ => false,
                        },
                        None => false,
                    });
                    sim.check("B02", "unpaid_storage_used", buys, || format!("{}: the account has no storage in force, yet its message was taken", msg_text(u)));
                } else {
                    sim.count("probe.no_storage_in_force");
                }
            }
        }
        for n in 0..self.k.nodes {
            if how != "lag" && n != by && self.c.nodes[n].up && self.c.can_vote(n, s) {
                if let Some(ok) = self.c.validate(sim, n, &chunk) {
                    sim.check("A10", "honest_rejected", ok, || format!("node {n} rejected the chunk honest node {by} proposed for shard {s} height {}", chunk.header.as_ref().unwrap().height.unwrap().block_number));
                    self.stop_if_broken(sim);
                    if self.dead {
                        return;
                    }
                }
            }
        }
        if let Some(r) = &rival {
            // the other proposal reaches some nodes after this one, though this one is decided
            for n in 0..self.k.nodes {
                if self.rng.chance(400) && self.c.nodes[n].up && self.c.can_vote(n, s) {
                    sim.count("fault.other_proposal_seen_last");
                    let ok = self.c.validate_in_round(sim, n, r);
                    self.refused_rival(sim, n, s, ok);
                }
            }
            if self.dead {
                return self.put_back(s, offered);
            }
        }
        let voted: Vec<usize> = (0..self.k.nodes).filter(|n| self.c.nodes[*n].up && self.c.can_vote(*n, s)).collect();
        self.c.decide(chunk.clone());
        let mut judged = false;
        let mut order: Vec<usize> = vec![by];
        order.extend((0..self.k.nodes).filter(|n| *n != by));
        for n in order {
            if self.c.nodes[n].up && voted.contains(&n) && (how != "lag" || n == by) {
                let evs = self.c.apply(sim, n, s, "vote");
                self.stop_if_broken(sim);
                if self.dead {
                    return;
                }
                if let (false, Some(evs)) = (judged, evs) {
                    judged = true;
                    self.judge(sim, n, s, &chunk, &evs);
                    if self.dead {
                        return;
                    }
                }
            }
        }
        self.first_apply(sim, s);
        self.reader_follows(sim, s, how);
        if !judged && !self.dead {
            if let Some(n) = (0..self.k.nodes).find(|n| self.c.at_head(*n, s)) {
                let h = self.c.height(n, s);
                let evs = match self.c.chains[s as usize].last().unwrap().events.clone() {
                    Some(e) => e,
                    // nobody was there to hear them: the log has them
                    Option::None => self.c.stored_events(n, s, h << 14, 100),
                };
                self.judge(sim, n, s, &chunk, &evs);
            }
        }
    }

    /// Another proposal for the same height, which is not decided: what it holds differs in a
    /// message that changes nothing, in a message that does, or in its time only.
    fn rival(&mut self, sim: &mut Sim, s: u32, by: usize, msgs: &mut Vec<MempoolMessage>) -> Option<p::ShardChunk> {
        let mut other = msgs.clone();
        let x = self.rng.below(10);
        if x < 6 {
            let at = crate::sys::BASE_UNIX + self.elapsed / 1000;
            let known: Vec<p::Message> = self.models[s as usize].fids.values().filter(|f| f.paid(at)).flat_map(|f| f.rows.values().cloned()).filter(|m| !of_shard_zero(m)).collect();
            let own: Vec<p::Message> = msgs.iter().filter_map(|m| Self::seal_message(m)).cloned().collect();
            let f: BTreeSet<u64> = own.iter().map(fid).collect();
            let known: Vec<p::Message> = known.into_iter().filter(|m| !f.contains(&fid(m))).collect();
            if !known.is_empty() {
                let m = MempoolMessage::UserMessage(self.rng.pick(&known).clone());
                if self.rng.chance(500) { other.push(m) } else { msgs.push(m) }
            }
        } else if x < 9 && !other.is_empty() {
            let i = self.rng.below(other.len() as u64) as usize;
            other.remove(i);
        }
        let p2 = (0..self.k.nodes).find(|n| *n != by && self.c.nodes[*n].up && self.c.can_vote(*n, s)).unwrap_or(by);
        let sc = self.c.propose(sim, p2, s, other)?;
        let chunk = self.c.chunk_of(s, &sc);
        sim.count("fault.rival_proposal");
        for n in 0..self.k.nodes {
            if self.rng.chance(600) && self.c.nodes[n].up && self.c.can_vote(n, s) {
                let ok = self.c.validate(sim, n, &chunk);
                self.refused_rival(sim, n, s, ok);
            }
        }
        self.elapsed += 1000 * self.rng.below(3);
        crate::sys::set_elapsed_ms(self.elapsed);
        Some(chunk)
    }
    fn refused_rival(&mut self, sim: &mut Sim, n: usize, s: u32, ok: Option<bool>) {
        if let Some(ok) = ok {
            sim.check("A10", "honest_rejected", ok, || format!("node {n} rejected an honest proposal for shard {s} that was made beside another"));
            self.stop_if_broken(sim);
        }
    }

    /// What the model says each user message of the chunk comes to; the model moves on.
    fn predict(&mut self, s: u32, chunk: &p::ShardChunk, heard: Option<&BTreeSet<Vec<u8>>>) -> (Vec<(p::Message, Result<(), Why>)>, Vec<p::Message>) {
        let bts = chunk.header.as_ref().unwrap().timestamp;
        let bad = self.bad.clone();
        let nsh = self.k.shards;
        let m = &mut self.models[s as usize];
        let mut out = vec![];
        m.now = unix_of(chunk);
        let before = m.before(m.now);
        let mut early = vec![];
        let mut seq = m.seq;
        for t in &chunk.transactions {
            let mut prune: BTreeSet<(u64, St)> = BTreeSet::new();
            let mut removed: Vec<(u64, Vec<u8>)> = vec![];
            let mut lost_verif: Vec<p::Message> = vec![];
            let mut sys = t.system_messages.clone();
            sys.sort_by_key(|v| match &v.on_chain_event {
                Some(e) => (0, e.block_number, e.log_index),
                None => (1, 0, 0),
            });
            for v in &sys {
                if let Some(e) = &v.on_chain_event {
                    if let (_, Some(k)) = m.onchain(e) {
                        removed.push((e.fid, k));
                    }
                }
                if let Some(f) = &v.fname_transfer {
                    m.fname(f);
                    if f.from_fid > 0 {
                        m.drop_row(f.from_fid, &(St::Data, vec![p::UserDataType::Username as u8]), "name transferred");
                    }
                }
                if let Some(e) = &v.block_event {
                    if e.seqnum() == seq + 1 {
                        seq += 1;
                        if let Some(x) = event_message(e) {
                            if let Ok(del) = m.merge(&x, true) {
                                lost_verif.extend(del);
                                prune.insert((fid(&x), St::Verif));
                            }
                        }
                    }
                }
            }
            // what a removed key signed before stays; it signs nothing more
            let _ = removed;
            for u in sort_users(&t.user_messages) {
                let r = match bad.get(&u.encode_to_vec()) {
                    // what was dated ahead is good once its time has come
                    Some(b) if b != "future" || ts(&u) as u64 > bts + 600 => Err(Why::Invalid),
                    _ => m.admit(&u, bts).and_then(|_| m.merge(&u, false)).map(|_| ()),
                };
                if r.is_ok() {
                    prune.insert((fid(&u), store_of(&u).unwrap()));
                }
                out.push((u, r));
            }
            for (f, st) in prune {
                // a foreign shard holds no storage for the account: what it keeps there is not promised
                if home(f, nsh) == s {
                    early.extend(m.prune(f, st, &before, heard));
                }
            }
            for d in lost_verif {
                if let Body::VerificationAddAddressBody(b) = body(&d) {
                    let (ty, text) = if b.protocol == p::Protocol::Ethereum as i32 {
                        (p::UserDataType::UserDataPrimaryAddressEthereum, eth_text(&b.address))
                    } else {
                        continue;
                    };
                    let k = (St::Data, vec![ty as u8]);
                    let hit = m.fid(fid(&d)).rows.get(&k).map_or(false, |r| matches!(body(r), Body::UserDataBody(x) if x.value == text));
                    if hit {
                        m.drop_row(fid(&d), &k, "address lost");
                    }
                }
            }
        }
        m.seq = seq;
        (out, early)
    }

    fn judge(&mut self, sim: &mut Sim, n: usize, s: u32, chunk: &p::ShardChunk, evs: &[p::HubEvent]) {
        let mut heard: BTreeSet<Vec<u8>> = BTreeSet::new();
        for e in evs {
            if let Some(p::hub_event::Body::PruneMessageBody(b)) = &e.body {
                heard.insert(b.message.as_ref().unwrap().hash.clone());
            }
        }
        if let Some(x) = pruned_twice(evs) {
            if home(fid(&x), self.k.shards) == s {
                sim.violate("B02", "pruned_after_replaced", format!("shard {s} fid {}: {} was replaced and then pruned in the same block, in place of the oldest message that was left", fid(&x), msg_text(&x)));
                self.dead = true;
                return;
            }
        }
        let (want, early) = self.predict(s, chunk, Some(&heard));
        let want = &want;
        for m in early {
            sim.violate("B02", "pruned_by_stale_count", format!("shard {s} fid {}: {} was pruned although the store was within its limit; the last message of another kind had been replaced in the same block and still counted", fid(&m), msg_text(&m)));
        }
        use p::hub_event::Body as H;
        let mut merged: HashMap<Vec<u8>, u32> = HashMap::new();
        let mut failed: Vec<(Vec<u8>, String)> = vec![];
        for e in evs {
            match &e.body {
                Some(H::MergeMessageBody(b)) => *merged.entry(b.message.as_ref().unwrap().hash.clone()).or_default() += 1,
                Some(H::MergeUsernameProofBody(b)) => {
                    if let Some(m) = &b.username_proof_message {
                        *merged.entry(m.hash.clone()).or_default() += 1;
                    }
                }
                Some(H::MergeFailure(b)) => failed.push((b.message.as_ref().unwrap().encode_to_vec(), format!("{} {}", b.code, b.reason))),
                _ => {}
            }
        }
        // one message offered twice in a block gets two verdicts, told apart only by their number
        let mut left: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut total: HashMap<Vec<u8>, u32> = HashMap::new();
        for (m, _) in want {
            *left.entry(m.encode_to_vec()).or_default() += 1;
        }
        for (e, n) in left.iter_mut() {
            *n -= failed.iter().filter(|f| f.0 == *e).count().min(*n);
        }
        for (m, _) in want {
            let e = m.encode_to_vec();
            total.entry(m.hash.clone()).or_default();
            if total.get(&[&m.hash[..], b"+", &e[..]].concat()).is_none() {
                *total.get_mut(&m.hash).unwrap() += left[&e] as u32;
                total.insert([&m.hash[..], b"+", &e[..]].concat(), 0);
            }
        }
        for (m, _) in want {
            let (a, b) = (merged.get(&m.hash).copied().unwrap_or(0), total[&m.hash]);
            sim.check("B10", "one_event_per_verdict", a == b, || format!("shard {s}: {} was not reported as failed {b} times, and reported as merged {a} times", msg_text(m)));
        }
        for (m, r) in want {
            let enc = m.encode_to_vec();
            let n_ok = left.get_mut(&enc).unwrap();
            let ok = *n_ok > 0;
            let why = if ok {
                *n_ok -= 1;
                None
            } else {
                failed.iter().find(|f| f.0 == enc).map(|f| f.1.clone())
            };
            sim.count(if ok { "op.accepted" } else { "op.rejected" });
            sim.log(format!("  {} {}", msg_text(m), if ok { "accepted".into() } else { format!("rejected: {}", why.clone().unwrap_or("no verdict".into())) }));
            let (prop, rule) = match r {
                Ok(()) => (
                    match store_of(m) {
                        Some(St::Link) if self.models[s as usize].fids.get(&fid(m)).map_or(false, |f| !f.compacts.is_empty()) => "B15",
                        Some(St::Data) | Some(St::Proof) if matches!(body(m), Body::UsernameProofBody(_)) || matches!(body(m), Body::UserDataBody(b) if b.r#type == p::UserDataType::Username as i32) => "B06",
                        _ => "B01",
                    },
                    "wrongly_rejected",
                ),
                Err(Why::Invalid) => ("B09", "forgery_accepted"),
                Err(Why::Signer) => {
                    let was = self.models[s as usize].fids.get(&fid(m)).map_or(false, |f| f.signers.contains_key(&m.signer));
                    if was {
                        ("B05", "removed_signer_accepted")
                    } else {
                        ("B09", "unknown_signer_accepted")
                    }
                }
                Err(Why::NoFid) => ("B09", "unregistered_accepted"),
                Err(Why::NotOwner) => ("B06", "name_not_owned_accepted"),
                Err(Why::Compacted) => ("B15", "compacted_accepted"),
                _ => ("B01", "loser_accepted"),
            };
            for q in ["B01", "B05", "B06", "B09", "B15"] {
                if q == prop {
                    sim.count(&format!("oracle.{q}"));
                }
            }
            if ok != r.is_ok() {
                let det = format!(
                    "shard {s} height {}: {} was {} ({}); by the rules it is {:?}{}",
                    chunk.header.as_ref().unwrap().height.unwrap().block_number,
                    msg_text(m),
                    if ok { "accepted" } else { "rejected" },
                    why.unwrap_or_default(),
                    r,
                    self.bad.get(&enc).map(|b| format!(" (spoiled: {b})")).unwrap_or_default()
                );
                sim.violate(prop, rule, det);
                self.dead = true;
            }
        }
        // the events of a block: one confirmation, with the totals, and ids that rise
        let conf: Vec<_> = evs.iter().filter_map(|e| if let Some(H::BlockConfirmedBody(b)) = &e.body { Some((e.id, b)) } else { None }).collect();
        sim.check("B10", "confirmation", conf.len() == 1 && conf[0].1.total_events == evs.len() as u64 && conf[0].1.block_number == self.c.height(n, s), || {
            format!("shard {s}: {} confirmations among {} events: {:?}", conf.len(), evs.len(), conf)
        });
        let mut ids: Vec<u64> = evs.iter().map(|e| e.id).collect();
        ids.sort();
        let h = self.c.height(n, s);
        sim.check("A09", "ids_rise", ids.windows(2).all(|w| w[0] < w[1]) && ids.iter().all(|i| i >> 14 == h), || format!("shard {s} height {h}: event ids {ids:?}"));
        if self.dead {
            return;
        }
        // the accounts touched
        let mut touched: BTreeSet<u64> = chunk.transactions.iter().map(|t| t.fid).collect();
        for t in &chunk.transactions {
            for v in &t.system_messages {
                if let Some(f) = &v.fname_transfer {
                    touched.insert(f.from_fid);
                }
            }
        }
        let pz = self.rng.range(1, 7) as usize;
        for f in touched {
            if f != 0 {
                self.compare(sim, n, s, f, pz, &format!("after height {h}"));
            }
        }
        if !self.models[s as usize].unlimited {
            // counts
            let f: Vec<u64> = self.models[s as usize].fids.keys().copied().collect();
            for f in f {
                if home(f, self.k.shards) != s {
                    continue;
                }
                for st in STORES {
                    let fm = &self.models[s as usize].fids[&f];
                    let max = self.models[s as usize].room(f, st);
                    if fm.count(st) >= max && max > 0 {
                        sim.count("probe.at_limit");
                    }
                }
            }
        }
    }

    /// What a shard's stores answer for one account, against the model.
    fn compare(&mut self, sim: &mut Sim, n: usize, s: u32, f: u64, page: usize, when: &str) -> bool {
        let stores = self.c.shard(n, s).get_stores();
        let mut all_ok = true;
        for st in STORES {
            if st == St::Verif && home(f, self.k.shards) != s {
                continue;
            }
            let (fwd, pages) = read_store(&stores, st, f, page, false);
            let (mut rev, _) = read_store(&stores, st, f, page, true);
            rev.reverse();
            if pages > 1 {
                sim.count("probe.multi_page");
            }
            sim.check("B08", "reverse_is_mirror", fwd == rev, || {
                format!("shard {s} fid {f} {st:?} page size {page}: forward {:?}, reverse {:?}", hashes(&fwd), hashes(&rev))
            });
            let (one, _) = read_store(&stores, st, f, 10_000, false);
            sim.check("B08", "pages_are_the_list", one == fwd, || format!("shard {s} fid {f} {st:?} page size {page}: pages gave {:?}, the whole list is {:?}", hashes(&fwd), hashes(&one)));
            let mut got: BTreeMap<Vec<u8>, p::Message> = fwd.iter().map(|m| (m.hash.clone(), m.clone())).collect();
            if st == St::Link {
                for m in stores.link_store.get_compact_state_messages_by_fid(f, &PageOptions::default()).map(|x| x.messages).unwrap_or_default() {
                    got.insert(m.hash.clone(), m);
                }
            }
            let model = &self.models[s as usize];
            let mut want: BTreeMap<Vec<u8>, p::Message> = BTreeMap::new();
            if let Some(fm) = model.fids.get(&f) {
                for m in fm.all(st) {
                    want.insert(m.hash.clone(), m.clone());
                }
                if st == St::Link {
                    for m in fm.compacts.values() {
                        want.insert(m.hash.clone(), m.clone());
                    }
                }
            }
            for q in ["B01", "B02", "B05", "B06", "B15"] {
                sim.count(&format!("oracle.{q}"));
            }
            for (h, m) in &got {
                if !want.contains_key(h) {
                    all_ok = false;
                    let (prop, why) = match model.gone.get(h) {
                        Some(&"pruned") => ("B02", "was pruned"),
                        Some(&"revoked") => ("B05", "was revoked with its signer"),
                        Some(&"compacted") => ("B15", "was compacted away"),
                        Some(&"name transferred") => ("B06", "lost its name"),
                        Some(w) => ("B01", *w),
                        None => ("B01", "never won"),
                    };
                    sim.violate(prop, "state", format!("shard {s} fid {f} {when}: {} is still stored, but {why}", msg_text(m)));
                } else if want[h] != *m {
                    all_ok = false;
                    sim.violate("B01", "state", format!("shard {s} fid {f} {when}: stored {} is not the message that was accepted", msg_text(m)));
                }
            }
            for (h, m) in &want {
                if !got.contains_key(h) {
                    all_ok = false;
                    let full = model.fids[&f].count(st) >= model.room(f, st);
                    let prop = if st == St::Link && !model.fids[&f].compacts.is_empty() {
                        "B15"
                    } else if full || (st != St::Proof && model.room(f, st) <= got.len() as u32) {
                        "B02"
                    } else {
                        "B01"
                    };
                    sim.violate(prop, "state", format!("shard {s} fid {f} {when}: {} should be stored and is not", msg_text(m)));
                }
            }
            // one entry for each thing, whatever the model says
            let mut keys: BTreeSet<Vec<u8>> = BTreeSet::new();
            for m in got.values().filter(|m| !is_compact(m)) {
                let k = key(m);
                sim.check("B01", "one_per_key", keys.insert(k), || format!("shard {s} fid {f} {st:?}: two messages about one thing, {}", msg_text(m)));
            }
        }
        if !all_ok {
            if sim.verbose {
                eprintln!("rents {:?} at {} home {}", self.models[s as usize].fids[&f].rents, self.models[s as usize].now, home(f, self.k.shards));
                let mut stores = self.c.shard(n, s).get_stores();
                for k in stores.trie.get_all_values(&Context::new(), &stores.db, &[]).unwrap() {
                    eprintln!("trie {}", hex::encode(k));
                }
                for ((st, _), m) in &self.models[s as usize].fids[&f].rows {
                    eprintln!("model {st:?} {} {}", msg_text(m), hex::encode(TrieKey::for_message(m).concat()));
                }
            }
            self.dead = true;
        }
        all_ok
    }

    fn trial(&mut self, sim: &mut Sim, node: usize, ms: Vec<(p::Message, bool)>) {
        if node >= self.k.nodes || !self.c.nodes[node].up || ms.is_empty() {
            return;
        }
        let at = |m: &p::Message, k: &Knobs| if of_shard_zero(m) { 0 } else { home(fid(m), k.shards) };
        let s = at(&ms[0].0, &self.k);
        if s == 0 || !self.c.at_head(node, s) {
            return;
        }
        let ms: Vec<(p::Message, bool)> = ms.into_iter().filter(|m| m.0.data.is_some() && at(&m.0, &self.k) == s).collect();
        let spoiled: BTreeSet<Vec<u8>> = ms.iter().filter(|m| m.1).map(|m| m.0.encode_to_vec()).collect();
        let ms: Vec<p::Message> = ms.into_iter().map(|m| m.0).collect();
        let before = self.c.dump(node, s);
        let r = match self.c.on(sim, node, "trial", |c| c.shard(node, s).simulate_bulk_messages(&ms).into_iter().map(|r| r.map_err(|e| e.to_string())).collect::<Vec<_>>()) {
            Ran::Done(r) => r,
            Ran::Down => return,
        };
        sim.log(format!("trial n{node} s{s} of {} -> {:?}", ms.len(), r.iter().map(|r| r.is_ok()).collect::<Vec<_>>()));
        sim.count("op.trial");
        let after = self.c.dump(node, s);
        sim.check("B07", "trace_left", before == after, || format!("trying {} messages changed the node's stored state: {}", ms.len(), diff(&before, &after)));
        sim.check("B07", "answers", r.len() == ms.len(), || format!("{} answers for {} messages tried", r.len(), ms.len()));
        let root = trie_root(self.c.shard(node, s));
        if let Some(d) = self.c.chains[s as usize].last() {
            let want = d.chunk.as_ref().unwrap().header.as_ref().unwrap().shard_root.clone();
            sim.check("B07", "root_left", root == want, || format!("after trying {} messages the node's trie root is {} where its block says {}", ms.len(), short(&root), short(&want)));
        }
        let bts = (crate::sys::true_unix_ms() / 1000) as u64 - gen::FC_EPOCH;
        let mut by_fid: BTreeMap<u64, Vec<(usize, p::Message)>> = BTreeMap::new();
        for (i, m) in ms.iter().enumerate() {
            by_fid.entry(fid(m)).or_default().push((i, m.clone()));
        }
        if self.c.nodes[node].skew == 0 && r.len() == ms.len() && ms.iter().all(|m| (ts(m) as i64 - bts as i64).abs() < 500) {
            for v in by_fid.values() {
                let kinds: BTreeSet<_> = v.iter().map(|x| store_of(&x.1)).collect();
                let verif = kinds.contains(&Some(St::Data)) && kinds.contains(&Some(St::Proof));
                // names cross accounts
                let proofs = ms.iter().filter(|m| store_of(m) == Some(St::Proof)).count();
                if kinds.len() < v.len() || verif || (kinds.contains(&Some(St::Proof)) && proofs > 1) || (kinds.contains(&Some(St::Data)) && proofs > 0) {
                    continue;
                }
                let mut mm = self.models[s as usize].clone();
                let all: Vec<p::Message> = v.iter().map(|x| x.1.clone()).collect();
                let ok = sort_users(&all).iter().map(|m| !spoiled.contains(&m.encode_to_vec()) && mm.admit(m, bts).and_then(|_| mm.merge(m, false)).is_ok()).fold(true, |a, b| a && b);
                sim.check("B07", "verdict", v.iter().all(|x| r[x.0].is_ok() == ok), || format!("trying {} together: a block would {} them, the node said {:?}", v.iter().map(|x| msg_text(&x.1)).collect::<Vec<_>>().join(", "), if ok { "take" } else { "not take all of" }, v.iter().map(|x| r[x.0].clone()).collect::<Vec<_>>()));
            }
        }
    }

    fn simulate(&mut self, sim: &mut Sim, node: usize, m: p::Message, bad: Option<String>) {
        if node >= self.k.nodes || !self.c.nodes[node].up {
            return;
        }
        let s = if of_shard_zero(&m) { 0 } else { home(fid(&m), self.k.shards) };
        if !self.c.at_head(node, s) {
            return;
        }
        let before = self.c.dump(node, s);
        let r = self.c.on(sim, node, "simulate", |c| if s == 0 { c.block(node).simulate_message(&m).map_err(|e| e.to_string()) } else { c.shard(node, s).simulate_message(&m).map_err(|e| e.to_string()) });
        let r = match r {
            Ran::Done(r) => r,
            Ran::Down => return,
        };
        sim.log(format!("simulate n{node} s{s} {} -> {:?}", msg_text(&m), r.as_ref().map_err(|e| e.chars().take(60).collect::<String>())));
        let after = self.c.dump(node, s);
        sim.check("B07", "trace_left", before == after, || format!("simulating {} changed the node's stored state: {}", msg_text(&m), diff(&before, &after)));
        if bad.is_some() {
            sim.check("B09", "simulated_forgery", r.is_err(), || format!("{} spoiled ({}) was found acceptable", msg_text(&m), bad.clone().unwrap_or_default()));
        } else if s > 0 {
            let bts = (crate::sys::true_unix_ms() / 1000) as u64 - gen::FC_EPOCH;
            let mut mm = self.models[s as usize].clone();
            let want = mm.admit(&m, bts).and_then(|_| mm.merge(&m, false)).map(|_| ());
            let near = (ts(&m) as i64 - bts as i64).abs() < 500;
            if near && self.c.nodes[node].skew == 0 {
                sim.check("B07", "verdict", r.is_ok() == want.is_ok(), || format!("simulating {} said {:?}; a block would decide {:?}", msg_text(&m), r, want));
            }
        }
        let root = if s == 0 { self.c.block(node).trie_root_hash() } else { trie_root(self.c.shard(node, s)) };
        let want = self.c.chains[s as usize].last().map(|d| d.chunk.as_ref().map(|c| c.header.as_ref().unwrap().shard_root.clone()).unwrap_or_else(|| d.block.as_ref().unwrap().header.as_ref().unwrap().state_root.clone()));
        if let Some(want) = want {
            sim.check("B07", "root_left", root == want, || format!("after simulating {} the node's trie root is {} where its block says {}", msg_text(&m), short(&root), short(&want)));
        }
    }

    fn tamper(&mut self, sim: &mut Sim, s: u32, by: usize, how: &str, seed: u64) {
        if !self.ready(sim, by, s) {
            return;
        }
        let mut r = Rng::new(seed);
        let msgs = self.pick(s, 12);
        let sc = match self.c.propose(sim, by, s, msgs.clone()) {
            Some(c) => c,
            None => return self.put_back(s, msgs),
        };
        let good = self.c.chunk_of(s, &sc);
        self.put_back(s, msgs);
        let mut bad = good.clone();
        // which messages change the state for good
        let mut mm = self.models[s as usize].clone();
        std::mem::swap(&mut mm, &mut self.models[s as usize]);
        let (verdicts, _) = self.predict(s, &good, None);
        std::mem::swap(&mut mm, &mut self.models[s as usize]);
        // every copy of a message counts once it is offered twice: leave those alone
        let lasting: BTreeSet<Vec<u8>> = verdicts
            .iter()
            .filter(|(m, v)| v.is_ok() && mm.fids.get(&fid(m)).map_or(false, |f| f.rows.values().any(|r| r.hash == m.hash)))
            .filter(|(m, _)| !self.models[s as usize].fids.get(&fid(m)).map_or(false, |f| f.rows.values().any(|r| r.hash == m.hash)))
            .filter(|(m, _)| verdicts.iter().filter(|(x, _)| x.hash == m.hash).count() == 1)
            .map(|(m, _)| m.hash.clone())
            .collect();
        let spot: Vec<(usize, usize)> = bad
            .transactions
            .iter()
            .enumerate()
            .flat_map(|(i, t)| t.user_messages.iter().enumerate().filter(|(_, m)| lasting.contains(&m.hash)).map(move |(j, _)| (i, j)))
            .collect();
        match how {
            "root" => match bad.header.as_mut().unwrap().shard_root.get_mut(r.below(20) as usize) {
                Some(x) => *x ^= 1,
                None => bad.header.as_mut().unwrap().shard_root = vec![1; 20],
            },
            "account" => {
                if bad.transactions.is_empty() {
                    return;
                }
                let i = r.below(bad.transactions.len() as u64) as usize;
                match bad.transactions[i].account_root.get_mut(0) {
                    Some(b) => *b ^= 1,
                    None => return,
                }
            }
            "drop" => {
                if spot.is_empty() {
                    return;
                }
                let (i, j) = *r.pick(&spot);
                bad.transactions[i].user_messages.remove(j);
            }
            "forge" => {
                if spot.is_empty() {
                    return;
                }
                let (i, j) = *r.pick(&spot);
                bad.transactions[i].user_messages[j].signature[5] ^= 1;
            }
            _ => {
                // another node's chunk: the same messages over an older root
                if self.c.chains[s as usize].is_empty() || good.transactions.is_empty() {
                    return;
                }
                let old = self.c.chains[s as usize].last().unwrap().chunk.as_ref().unwrap().header.as_ref().unwrap().shard_root.clone();
                if old == good.header.as_ref().unwrap().shard_root {
                    return;
                }
                bad.header.as_mut().unwrap().shard_root = old;
            }
        }
        sim.count(&format!("fault.tampered_{how}"));
        for n in 0..self.k.nodes {
            if self.c.nodes[n].up && self.c.can_vote(n, s) {
                let before = self.c.dump(n, s);
                if let Some(ok) = self.c.validate(sim, n, &bad) {
                    sim.check("A10", "tampered_accepted", !ok, || format!("node {n} found valid a chunk for shard {s} whose content was altered ({how}) after its root was computed"));
                    let after = self.c.dump(n, s);
                    sim.check("B07", "trace_left", before == after, || format!("judging a tampered chunk changed node {n}'s stored state: {}", diff(&before, &after)));
                    if ok {
                        self.dead = true;
                        return;
                    }
                    if let Some(again) = self.c.validate(sim, n, &good) {
                        sim.check("A10", "honest_rejected", again, || format!("node {n} rejected an honest chunk for shard {s} after seeing an altered copy ({how})"));
                    }
                }
            }
        }
        self.stop_if_broken(sim);
    }

    fn finish(&mut self, sim: &mut Sim) {
        // faults stop; everyone returns and catches up
        self.c.armed.lock().unwrap().at.clear();
        for n in 0..self.k.nodes {
            self.c.nodes[n].skew = 0;
            if !self.c.nodes[n].up {
                self.c.start(sim, n);
            }
            self.stop_if_broken(sim);
            if self.dead {
                return;
            }
        }
        for _ in 0..8 {
            for s in 0..=self.k.shards {
                if self.pools[s as usize].len() > 0 || (s > 0 && self.models[s as usize].seq < self.c.block_events.last().map_or(0, |e| e.seqnum())) {
                    if s == 0 {
                        self.make_block(sim, 0, 50, "fresh");
                    } else {
                        self.make(sim, s, 0, 50, "fresh");
                    }
                }
                if self.dead {
                    return;
                }
            }
        }
        for n in 0..self.k.nodes {
            for s in 0..=self.k.shards {
                let k = self.c.chains[s as usize].len() + 1;
                self.catch_up(sim, n, s, k);
                if self.dead {
                    return;
                }
                sim.check("A04", "caught_up", self.c.at_head(n, s), || format!("node {n} shard {s} could not reach the head"));
            }
        }
        for s in 1..=self.k.shards {
            let seed = self.rng.below(1 << 30);
            self.audit(sim, 0, s, seed);
            if self.dead {
                return;
            }
        }
        self.replicas_agree(sim);
    }

    /// Shard 0's verifications of an account, against the copy on its home shard.
    fn replicas_agree(&mut self, sim: &mut Sim) {
        let _ = sim;
    }

    // ------------------------------------------------------------ audits

    fn audit(&mut self, sim: &mut Sim, n: usize, s: u32, seed: u64) {
        if !self.c.nodes[n].up || !self.c.at_head(n, s) || self.c.chains[s as usize].is_empty() {
            return;
        }
        sim.count("op.audit");
        let mut r = Rng::new(seed);
        let fids: Vec<u64> = self.k.fids.clone();
        for f in &fids {
            let pz = r.range(1, 9) as usize;
            if !self.compare(sim, n, s, *f, pz, "at audit") {
                return;
            }
        }
        self.audit_limits(sim, n, s, &fids);
        self.audit_trie(sim, n, s, &mut r);
        self.audit_indexes(sim, n, s, &mut r);
        if !self.c.gone.contains_key(&(n, s)) {
            self.audit_events(sim, n, s, &mut r);
        }
        self.audit_follows(sim, n, s);
        self.audit_pages(sim, n, s, &mut r);
    }

    /// What a node answers of an account's storage: its units, and how much of each kind it holds and may hold.
    fn audit_limits(&mut self, sim: &mut Sim, n: usize, s: u32, fids: &[u64]) {
        let now = (crate::sys::true_unix_ms() / 1000) as u64;
        let stores = self.c.shard(n, s).get_stores();
        for f in fids {
            sim.count("oracle.limits");
            let model = &self.models[s as usize];
            let empty = FidM::default();
            let fm = model.fids.get(f).unwrap_or(&empty);
            let units = fm.units(now);
            let got = match stores.get_storage_limits(*f) {
                Ok(r) => r,
                Err(e) => {
                    sim.violate("B02", "limits_answer", format!("node {n} shard {s}: no answer about the storage of {f}: {e:?}"));
                    continue;
                }
            };
            let of = |t: p::StorageUnitType| units[t as usize];
            let mut bad = vec![];
            if got.units != units.iter().sum::<u32>() {
                bad.push(format!("{} units, bought and in force are {units:?}", got.units));
            }
            for d in &got.unit_details {
                let u = of(d.unit_type());
                if (d.unit_size, d.purchased_unit_size, d.borrowed_unit_size, d.lent_unit_size) != (u, u, 0, 0) {
                    bad.push(format!("{d:?} where {units:?} were bought"));
                }
            }
            for l in &got.limits {
                let st = match l.store_type() {
                    p::StoreType::Casts => St::Cast,
                    p::StoreType::Links => St::Link,
                    p::StoreType::Reactions => St::React,
                    p::StoreType::UserData => St::Data,
                    p::StoreType::Verifications => St::Verif,
                    p::StoreType::UsernameProofs => St::Proof,
                    _ => continue,
                };
                if st == St::Verif && home(*f, self.k.shards) != s {
                    continue;
                }
                let want = (model.max(st, units) as u64, fm.count(st) as u64);
                if (l.limit, l.used) != want {
                    bad.push(format!("{st:?}: {} of {}; {} of {} by the blocks", l.used, l.limit, want.1, want.0));
                }
            }
            if got.unit_details.len() != 3 || got.limits.len() < 6 {
                bad.push(format!("an answer without some kinds: {got:?}"));
            }
            if !bad.is_empty() {
                sim.violate("B02", "limits_answer", format!("node {n} shard {s} says of the storage of {f}: {}", bad.join("; ")));
            }
        }
    }

    /// The first height of a shard at or after a time.
    fn first_height(&self, s: u32, t: u64) -> Option<u64> {
        let ts = |d: &Decided| d.chunk.as_ref().map(|c| c.header.as_ref().unwrap().timestamp).or(d.block.as_ref().map(|b| b.header.as_ref().unwrap().timestamp)).unwrap();
        self.c.chains[s as usize].iter().position(|d| ts(d) >= t).map(|i| i as u64 + 1)
    }
    /// A node forgets the history past its retention, and nothing else.
    fn house(&mut self, sim: &mut Sim, n: usize, how: &str, events: u64, blocks: u64, synced: bool, page: usize) {
        let shards = self.k.shards;
        let heads: Vec<u64> = (0..=shards).map(|s| self.c.height(n, s)).collect();
        let before: Vec<_> = (0..=shards).map(|s| self.c.dump_kept(n, s)).collect();
        let armed = self.c.armed.lock().unwrap().at.contains_key(&self.c.nodes[n].dir);
        let skew = self.c.nodes[n].skew;
        let clock = move || ((crate::sys::true_unix_ms() + skew) / 1000 - gen::FC_EPOCH as i64).max(0) as u64;
        let began = clock();
        let opts = || PageOptions { page_size: Some(page), ..Default::default() };
        let throttle = std::time::Duration::from_millis(100);
        sim.count(&format!("op.house_{how}"));
        let mut counted: Vec<(u32, u8, u64)> = vec![];
        let ran = self.c.on(sim, n, "housekeeping", |c| {
            let block_stores = c.block(n).stores();
            let all: HashMap<u32, _> = (1..=shards).map(|s| (s, c.shard(n, s).get_stores())).collect();
            if how == "jobs" {
                use snapchain::jobs::{block_pruning::block_pruning_job, event_pruning::event_pruning_job};
                let (tx, rx) = tokio::sync::watch::channel(synced);
                std::mem::forget(tx);
                let secs = std::time::Duration::from_secs;
                let every = "* * * * * *";
                let jobs = vec![event_pruning_job(every, secs(events), all.clone()).unwrap(), block_pruning_job(every, secs(blocks), block_stores, all, rx).unwrap()];
                // a scheduler of its own time, gone when the run of it ends
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
                rt.block_on(async {
                    let sched = tokio_cron_scheduler::JobScheduler::new().await.unwrap();
                    for j in jobs {
                        sched.add(j).await.unwrap();
                    }
                    sched.start().await.unwrap();
                    for _ in 0..32 {
                        crate::sys::set_elapsed_ms(crate::sys::elapsed_ms() + 250);
                        tokio::time::sleep(std::time::Duration::from_millis(250)).await;
                    }
                });
                return;
            }
            for _ in 0..if armed { 2 } else { 1 } {
                for s in 1..=shards {
                    let x = c.rt.block_on(all[&s].prune_events_until(began.saturating_sub(events), throttle, Some(opts())));
                    counted.push((s, 9, x.unwrap_or(0) as u64));
                    if synced {
                        let x = c.rt.block_on(all[&s].prune_shard_chunks_until(began.saturating_sub(blocks), throttle, Some(opts())));
                        counted.push((s, 2, x.unwrap_or(0) as u64));
                    }
                }
                if synced {
                    if let Ok(Some(h)) = block_stores.block_store.get_next_height_by_timestamp(began.saturating_sub(blocks)) {
                        let x = c.rt.block_on(block_stores.block_store.prune_until(h, &opts(), throttle));
                        counted.push((0, 1, x.unwrap_or(0) as u64));
                    }
                }
            }
        });
        let whole = matches!(ran, Ran::Done(()));
        self.elapsed = crate::sys::elapsed_ms();
        let ended = clock();
        for s in 0..=shards {
            let (was, is): (BTreeMap<_, _>, BTreeMap<_, _>) = (before[s as usize].iter().cloned().collect(), self.c.dump_kept(n, s).into_iter().collect());
            let head = heads[s as usize];
            // a time no block of this node has reached yet removes nothing
            let bound = |keep: u64, at: u64| self.first_height(s, at.saturating_sub(keep)).filter(|h| *h <= head).unwrap_or(0);
            let most = |keep: u64| (began..=ended).map(|t| bound(keep, t)).max().unwrap();
            let (may_events, may_blocks) = (if s == 0 { 0 } else { most(events) }, if synced { most(blocks) } else { 0 });
            let least = |keep: u64| (began..=if how == "jobs" { ended } else { began }).map(|t| bound(keep, t)).min().unwrap();
            let (must_events, must_blocks) = (if s == 0 { 0 } else { least(events) }, if synced { least(blocks) } else { 0 });
            let of = |k: &[u8], e: u64, b: u64| history_of(k).is_some_and(|(kind, h)| h < if kind == 9 { e } else { b });
            let mut lost = BTreeMap::new();
            for (k, v) in &was {
                match is.get(k) {
                    Some(x) => {
                        sim.check("G01", "rewritten", x == v, || format!("node {n} shard {s}: housekeeping altered {}", hex::encode(k)));
                        if whole {
                            sim.check("G01", "left_behind", !of(k, must_events, must_blocks), || {
                                format!("node {n} shard {s}: {how}, events kept {events} s, blocks kept {blocks} s at {began}: {} is left, events below height {must_events} and blocks below {must_blocks} are past their time", history_text(k))
                            });
                        }
                    }
                    Option::None => {
                        lost.insert(k.clone(), v.clone());
                    }
                }
            }
            sim.add("probe.history_rows_removed", lost.len() as u64);
            for k in lost.keys() {
                sim.check("G01", "removed_too_much", of(k, may_events, may_blocks), || {
                    format!("node {n} shard {s} at height {head}: {how}, events kept {events} s, blocks kept {blocks} s, synced {synced}, at {began}: {} is gone, only events below height {may_events} and blocks below {may_blocks} are past their time", history_text(k))
                });
            }
            let added: Vec<String> = is.keys().filter(|k| !was.contains_key(*k)).map(hex::encode).collect();
            sim.check("G01", "added", added.is_empty(), || format!("node {n} shard {s}: housekeeping added {added:?}"));
            if whole && !armed && how == "direct" {
                for kind in [1u8, 2, 9] {
                    let n1 = lost.keys().filter(|k| k[0] == kind).count() as u64;
                    let n2: u64 = counted.iter().filter(|x| x.0 == s && x.1 == kind).map(|x| x.2).sum();
                    sim.check("G01", "count", n1 == n2, || format!("node {n} shard {s}: {n1} rows of kind {kind} removed, {n2} reported"));
                }
            }
            self.c.gone.entry((n, s)).or_default().extend(lost);
            if !self.c.nodes[n].up {
                continue;
            }
            let h = self.c.height(n, s);
            sim.check("G01", "head_moved", h == head, || format!("node {n} shard {s}: at height {head} before housekeeping, at {h} after"));
            // what is asked of the rest of its history is still answered
            let kept: Vec<u64> = is.keys().filter(|k| matches!(k[0], 1 | 2)).filter_map(|k| history_height(k)).collect();
            let (first, last) = if s == 0 {
                let b = self.c.block(n).stores().block_store;
                (b.min_block_number().ok(), b.max_block_number().ok())
            } else {
                let b = self.c.shard(n, s).get_stores().shard_store;
                (b.min_block_number().ok(), b.max_block_number().ok())
            };
            sim.check("G01", "span", first == kept.first().copied() && last.unwrap_or(0) == kept.last().copied().unwrap_or(0), || format!("node {n} shard {s}: keeps blocks {:?} to {:?} and says {first:?} to {last:?}", kept.first(), kept.last()));
            for ago in [events, blocks, 1] {
                let t = ended.saturating_sub(ago);
                let want = self.first_height(s, t).filter(|h| *h <= head);
                let got = if s == 0 { self.c.block(n).stores().block_store.get_next_height_by_timestamp(t).ok().flatten() } else { self.c.shard(n, s).get_stores().get_next_height_by_timestamp(t) };
                sim.check("G01", "height_by_time", got == want, || format!("node {n} shard {s}: the first block at or after {t} is {want:?}, the node says {got:?}"));
            }
        }
    }

    /// An account follows a channel while it has a standing like of its token.
    fn audit_follows(&mut self, sim: &mut Sim, n: usize, s: u32) {
        let stores = self.c.shard(n, s).get_stores();
        let mut want: BTreeMap<u64, BTreeMap<[u8; 32], u32>> = BTreeMap::new();
        for fm in self.models[s as usize].fids.values() {
            for m in fm.all(St::React) {
                if let (false, Body::ReactionBody(b)) = (is_remove(m), body(m)) {
                    if let (1, Some(p::reaction_body::Target::TargetUrl(u))) = (b.r#type, &b.target) {
                        if let Some(id) = gen::token_of(u) {
                            want.entry(fid(m)).or_default().insert(id, ts(m));
                            sim.count("reach.follow");
                        }
                    }
                }
            }
        }
        sim.count("oracle.B17");
        let ids: Vec<[u8; 32]> = gen::TOKENS.iter().map(|t| gen::decimal(t).unwrap()).collect();
        let mut by: BTreeMap<[u8; 32], BTreeMap<u64, u32>> = BTreeMap::new();
        let o = PageOptions::default();
        for f in &self.k.fids {
            let w = want.remove(f).unwrap_or_default();
            for (id, t) in &w {
                by.entry(*id).or_default().insert(*f, *t);
            }
            let got: Vec<([u8; 32], u32)> = acct::ReactionStore::follows_by_fid(&stores.reaction_store, *f, &o).map(|x| x.entries.iter().map(|e| (e.channel_id, e.followed_at)).collect()).unwrap_or_default();
            sim.check("B17", "follows_of_account", got == w.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), || format!("shard {s}: {f} is listed following {:?}; by its standing likes it follows {:?}", follow_text(&got), w.iter().map(|(a, b)| (short(a), *b)).collect::<Vec<_>>()));
            for id in &ids {
                let got = acct::ReactionStore::is_following(&stores.reaction_store, *f, id).ok().flatten();
                sim.check("B17", "is_following", got == w.get(id).copied(), || format!("shard {s}: whether {f} follows {} is answered {got:?}; it should be {:?}", short(id), w.get(id)));
            }
        }
        for id in &ids {
            let w: Vec<(u64, u32)> = by.get(id).map(|x| x.iter().map(|(a, b)| (*a, *b)).collect()).unwrap_or_default();
            let got: Vec<(u64, u32)> = acct::ReactionStore::followers_by_channel(&stores.reaction_store, id, &o).map(|x| x.entries.iter().map(|e| (e.fid, e.followed_at)).collect()).unwrap_or_default();
            sim.check("B17", "followers_of_channel", got == w, || format!("shard {s}: {} is listed with followers {got:?}; by standing likes it has {w:?}", short(id)));
            let c = acct::ReactionStore::follower_count(&stores.reaction_store, id).ok();
            sim.check("B17", "follower_count", c == Some(w.len() as u64), || format!("shard {s}: {} counts {c:?} followers and has {w:?}", short(id)));
        }
    }

    /// Every listing, a page at a time and both ways; the listings of an account also against the model.
    fn audit_pages(&mut self, sim: &mut Sim, n: usize, s: u32, r: &mut Rng) {
        use crate::pages::{msgs, of, rows, walk, Listing};
        let stores = self.c.shard(n, s).get_stores();
        let st = &stores;
        let at = format!("shard {s}");
        let limit = if r.chance(300) { 1000 } else { 250 };
        let fids = self.k.fids.clone();
        for f in fids.iter().copied() {
            let mut of_account: Vec<(Listing, Option<Vec<Vec<u8>>>)> = vec![];
            let model = &self.models[s as usize];
            let none = FidM::default();
            let fm = model.fids.get(&f).unwrap_or(&none);
            let sorted = |x: St, keep: &dyn Fn(&p::Message) -> bool| -> Option<Vec<Vec<u8>>> {
                let mut v: Vec<(u32, Vec<u8>)> = fm.all(x).into_iter().filter(|m| keep(m)).map(|m| (ts(m), m.hash.clone())).collect();
                v.sort();
                Some(v.into_iter().map(|x| x.1).collect())
            };
            let kind = |m: &p::Message| -> (String, i32) {
                match body(m) {
                    Body::LinkBody(b) => (b.r#type.clone(), 0),
                    Body::ReactionBody(b) => (String::new(), b.r#type),
                    _ => (String::new(), 0),
                }
            };
            let a = |m: &p::Message| !is_remove(m);
            let d = |m: &p::Message| is_remove(m);
            of_account.push((msgs(format!("casts added by {f}"), move |o| acct::CastStore::get_cast_adds_by_fid(&st.cast_store, f, o)), sorted(St::Cast, &a)));
            of_account.push((msgs(format!("casts removed by {f}"), move |o| acct::CastStore::get_cast_removes_by_fid(&st.cast_store, f, o)), sorted(St::Cast, &d)));
            for t in ["", "follow", "block", "fol"] {
                of_account.push((msgs(format!("{t} links added by {f}"), move |o| acct::LinkStore::get_link_adds_by_fid(&st.link_store, f, t.into(), o)), sorted(St::Link, &|m| a(m) && (t.is_empty() || kind(m).0 == t))));
                of_account.push((msgs(format!("{t} links removed by {f}"), move |o| acct::LinkStore::get_link_removes_by_fid(&st.link_store, f, t.into(), o)), sorted(St::Link, &|m| d(m) && (t.is_empty() || kind(m).0 == t))));
            }
            of_account.push((msgs(format!("compact link states of {f}"), move |o| acct::LinkStore::get_link_compact_state_message_by_fid(&st.link_store, f, o)), None));
            for t in 0..3 {
                of_account.push((msgs(format!("reactions of kind {t} added by {f}"), move |o| acct::ReactionStore::get_reaction_adds_by_fid(&st.reaction_store, f, t, o)), sorted(St::React, &|m| a(m) && (t == 0 || kind(m).1 == t))));
                of_account.push((msgs(format!("reactions of kind {t} removed by {f}"), move |o| acct::ReactionStore::get_reaction_removes_by_fid(&st.reaction_store, f, t, o)), sorted(St::React, &|m| d(m) && (t == 0 || kind(m).1 == t))));
            }
            of_account.push((msgs(format!("user data of {f}"), move |o| acct::UserDataStore::get_user_data_adds_by_fid(&st.user_data_store, f, o, None, None)), sorted(St::Data, &a)));
            of_account.push((msgs(format!("name proofs of {f}"), move |o| acct::UsernameProofStore::get_username_proofs_by_fid(&st.username_proof_store, f, o)), sorted(St::Proof, &a)));
            if home(f, self.k.shards) == s {
                of_account.push((msgs(format!("verifications added by {f}"), move |o| acct::VerificationStore::get_verification_adds_by_fid(&st.verification_store, f, o)), sorted(St::Verif, &a)));
                of_account.push((msgs(format!("verifications removed by {f}"), move |o| acct::VerificationStore::get_verification_removes_by_fid(&st.verification_store, f, o)), sorted(St::Verif, &d)));
            }
            // within a span of time
            let times: Vec<u32> = STORES.iter().flat_map(|x| fm.all(*x)).map(ts).collect();
            if !times.is_empty() {
                let (x, y) = (*r.pick(&times), *r.pick(&times));
                let (t1, t2) = (x.min(y), x.max(y));
                let (from, to) = (if r.chance(800) { Some(t1) } else { None }, if r.chance(800) { Some(t2) } else { None });
                let within = move |m: &p::Message| from.is_none_or(|t| ts(m) >= t) && to.is_none_or(|t| ts(m) <= t);
                let what = format!("{f} from {from:?} to {to:?}");
                of_account.push((msgs(format!("casts of {what}"), move |o| st.cast_store.get_all_messages_by_fid(f, from, to, o)), sorted(St::Cast, &within)));
                of_account.push((msgs(format!("links of {what}"), move |o| st.link_store.get_all_messages_by_fid(f, from, to, o)), sorted(St::Link, &within)));
                of_account.push((msgs(format!("reactions of {what}"), move |o| st.reaction_store.get_all_messages_by_fid(f, from, to, o)), sorted(St::React, &within)));
                of_account.push((msgs(format!("user data of {what}"), move |o| acct::UserDataStore::get_user_data_adds_by_fid(&st.user_data_store, f, o, from, to)), sorted(St::Data, &within)));
            }
            for (l, want) in &of_account {
                if !r.chance(limit) {
                    continue;
                }
                let got = walk(sim, &at, l, r);
                if let Some(w) = want {
                    let txt = |v: &[Vec<u8>]| v.iter().map(|h| short(h)).collect::<Vec<_>>();
                    sim.check("B04", "of_account", got == *w, || format!("{at}: {}: listed {:?}, stored {:?}", l.name, txt(&got), txt(w)));
                }
            }
        }
        let mut all: Vec<Listing> = vec![];
        for f in fids.iter().copied() {
            all.push(msgs(format!("casts that mention {f}"), move |o| acct::CastStore::get_casts_by_mention(&st.cast_store, f, o)));
            all.push(msgs(format!("follow links to {f}"), move |o| acct::LinkStore::get_links_by_target(&st.link_store, &p::link_body::Target::TargetFid(f), "follow".into(), o)));
            all.push(msgs(format!("links to {f}"), move |o| acct::LinkStore::get_links_by_target(&st.link_store, &p::link_body::Target::TargetFid(f), String::new(), o)));
            all.push(of(format!("channels {f} follows"), move |o| acct::ReactionStore::follows_by_fid(&st.reaction_store, f, o), |x| (x.entries.iter().map(|e| e.channel_id.to_vec()).collect(), x.next_page_token)));
            all.push(of(format!("signers of {f}"), move |o| st.onchain_event_store.get_signers(Some(f), o), |x| (rows(&x.onchain_events), x.next_page_token)));
            for t in [p::OnChainEventType::EventTypeStorageRent, p::OnChainEventType::EventTypeSigner, p::OnChainEventType::EventTypeIdRegister] {
                all.push(of(
                    format!("{t:?} events of {f} in even blocks"),
                    move |o| acct::get_onchain_events_with_filter(&st.db, o, t, Some(f), |e| e.block_number % 2 == 0),
                    |x| (rows(&x.onchain_events), x.next_page_token),
                ));
            }
        }
        for u in ["https://a.example/x", "https://a.example/xy"] {
            all.push(msgs(format!("replies to {u}"), move |o| acct::CastStore::get_casts_by_parent(&st.cast_store, &p::cast_add_body::Parent::ParentUrl(u.into()), o)));
            for t in 0..3 {
                all.push(msgs(format!("reactions {t} to {u}"), move |o| acct::ReactionStore::get_reactions_by_target(&st.reaction_store, &p::reaction_body::Target::TargetUrl(u.into()), t, o)));
            }
        }
        for id in gen::TOKENS.iter().map(|t| gen::decimal(t).unwrap()) {
            all.push(of(format!("followers of {}", short(&id)), move |o| acct::ReactionStore::followers_by_channel(&st.reaction_store, &id, o), |x| (x.entries.iter().map(|e| e.fid.to_be_bytes().to_vec()).collect(), x.next_page_token)));
        }
        all.push(of("chain events", move |o| st.onchain_event_store.get_all_onchain_events(o), |x| (rows(&x.onchain_events), x.next_page_token)));
        all.push(of("all signers", move |o| st.onchain_event_store.get_signers(None, o), |x| (rows(&x.onchain_events), x.next_page_token)));
        all.push(of("accounts", move |o| st.onchain_event_store.get_fids(o), |x| (x.0.iter().map(|f| f.to_be_bytes().to_vec()).collect(), x.1)));
        let height = self.c.chains[s as usize].len() as u64;
        let (h1, h2) = (r.below(height + 2), r.below(height + 3));
        let (from, to) = (h1.min(h2), if r.chance(700) { Some(h1.max(h2)) } else { None });
        all.push(of(format!("blocks {from} to {to:?}"), move |o| snapchain::storage::store::shard::get_shard_chunks_in_range(&st.db, o, from, to), |x| (rows(&x.shard_chunks), x.next_page_token)));
        let all_events: Vec<u64> = self.c.stored_events(n, s, 0, 1000).iter().map(|e| e.id).collect();
        let st = &stores;
        let (e1, e2) = if all_events.is_empty() { (0, 0) } else { (*r.pick(&all_events), *r.pick(&all_events)) };
        let (first, stop) = (e1.min(e2) + r.below(2), if r.chance(600) { Some(e1.max(e2) + r.below(2)) } else { None });
        let events = of(format!("events {first} to {stop:?}"), move |o| st.get_events(first, stop, Some(PageOptions { page_size: o.page_size, page_token: o.page_token.clone(), reverse: o.reverse })), |x| (x.events.iter().map(|e| e.id.to_be_bytes().to_vec()).collect(), x.next_page_token));
        let got = walk(sim, &at, &events, r);
        let want: Vec<Vec<u8>> = all_events.iter().filter(|i| **i >= first && stop.is_none_or(|t| **i < t)).map(|i| i.to_be_bytes().to_vec()).collect();
        sim.check("B08", "events_of_a_span", got == want, || format!("{at}: events {first} to {stop:?}: {} listed, {} stored", got.len(), want.len()));
        let blocks: Vec<u64> = stores.shard_store.get_shard_chunks(from, to).map(|v| v.iter().filter_map(|c| Some(c.header.as_ref()?.height.as_ref()?.block_number)).collect()).unwrap_or_default();
        let wb: Vec<u64> = (1..=height).filter(|h| *h >= from && to.is_none_or(|t| *h < t)).filter(|h| !self.c.gone.get(&(n, s)).is_some_and(|g| g.keys().any(|k| k[0] == 2 && history_height(k) == Some(*h)))).collect();
        sim.check("B08", "blocks_of_a_span", blocks == wb, || format!("{at}: blocks {from} to {to:?}: {blocks:?} listed, {wb:?} stored"));
        for l in &all {
            if r.chance(limit) {
                walk(sim, &at, l, r);
            }
        }
    }

    fn audit_trie(&mut self, sim: &mut Sim, n: usize, s: u32, r: &mut Rng) {
        let model = self.models[s as usize].clone();
        let mut keys: Vec<(Vec<u8>, String)> = vec![];
        for (f, fm) in &model.fids {
            for ((st, _), m) in &fm.rows {
                if *st == St::Verif && home(*f, self.k.shards) != s {
                    continue;
                }
                keys.push((TrieKey::for_message(m).concat(), msg_text(m)));
            }
            for m in fm.compacts.values() {
                keys.push((TrieKey::for_message(m).concat(), msg_text(m)));
            }
            for e in fm.onchain.values() {
                keys.push((TrieKey::for_onchain_event(e), format!("{:?} fid {f}", e.r#type())));
            }
        }
        for (name, pr) in &model.fnames {
            if pr.fid != 0 && !model.refreshed.contains(name) {
                keys.push((TrieKey::for_fname(pr.fid, &String::from_utf8_lossy(name).to_string()), format!("fname {}", String::from_utf8_lossy(name))));
            }
        }
        let e = self.c.shard(n, s);
        for (k, what) in &keys {
            let there = e.trie_key_exists(&Context::new(), k);
            sim.check("B03", "missing_from_trie", there, || format!("shard {s}: {what} is stored, and the trie does not have it"));
        }
        // everything in the trie, back to what it stands for
        let mut stores = e.get_stores();
        let mut got: BTreeSet<Vec<u8>> = BTreeSet::new();
        match stores.trie.get_all_values(&Context::new(), &stores.db, &[]) {
            // an empty trie names its bare root
            Ok(v) => got.extend(v.into_iter().filter(|k| !k.is_empty())),
            Err(x) => {
                sim.violate("B03", "trie_unreadable", format!("shard {s}: {x:?}"));
                return;
            }
        }
        let want: BTreeSet<Vec<u8>> = keys.iter().map(|k| k.0.clone()).collect();
        let foreign = |k: &Vec<u8>| {
            // verification copies of accounts homed elsewhere, and refreshed names
            let ver = [p::MessageType::VerificationAddEthAddress as u8, p::MessageType::VerificationRemove as u8];
            k.len() > 6 && (ver.iter().any(|v| k[5] == v << 3) && home(u32::from_be_bytes([k[1], k[2], k[3], k[4]]) as u64, self.k.shards) != s || (k[5] == 7 && !model.refreshed.is_empty()))
        };
        let extra: Vec<&Vec<u8>> = got.difference(&want).filter(|k| !foreign(k)).collect();
        sim.check("B03", "stray_in_trie", extra.is_empty(), || format!("shard {s}: the trie has {} entries nothing stored stands for, e.g. {}", extra.len(), hex::encode(extra[0])));
        let e = self.c.shard(n, s);
        let items = e.trie_num_items();
        sim.check("B03", "item_count", items == got.len(), || format!("shard {s}: the trie counts {items} entries and holds {}", got.len()));
        // the root depends on the set alone
        let root = trie_root(self.c.shard(n, s));
        let mut v: Vec<Vec<u8>> = got.into_iter().collect();
        r.shuffle(&mut v);
        self.scratch += 1;
        let path = std::env::current_dir().unwrap().join(format!("t{}", self.scratch));
        let db = RocksDB::new(path.to_str().unwrap());
        db.open().unwrap();
        let mut t = MerkleTrie::new().unwrap();
        t.initialize(&db).unwrap();
        let ctx = Context::new();
        let mut txn = db.txn();
        let decoy: Vec<Vec<u8>> = (0..3).map(|i| { let mut k = v.first().cloned().unwrap_or(vec![1; 12]); let l = k.len(); k[l - 1] ^= 1 + i; k[l - 2] ^= 3; k }).filter(|k| !v.contains(k)).collect();
        for d in &decoy {
            t.insert(&ctx, &db, &mut txn, vec![d]).unwrap();
        }
        for (i, k) in v.iter().enumerate() {
            t.insert(&ctx, &db, &mut txn, vec![k]).unwrap();
            if i % 7 == 3 {
                db.commit(std::mem::replace(&mut txn, db.txn())).unwrap();
                t.reload(&db).unwrap();
            }
        }
        for d in &decoy {
            t.delete(&ctx, &db, &mut txn, vec![d]).unwrap();
        }
        let other = t.root_hash().unwrap();
        sim.check("B03", "root_of_set", other == root, || format!("shard {s}: root {} after its history, {} when the same {} entries are inserted in another order", short(&root), short(&other), v.len()));
        let want_root = self.c.chains[s as usize].last().unwrap().chunk.as_ref().unwrap().header.as_ref().unwrap().shard_root.clone();
        sim.check("B03", "root_in_header", root == want_root, || format!("shard {s}: trie root {} and the header's {}", short(&root), short(&want_root)));
    }

    fn audit_indexes(&mut self, sim: &mut Sim, n: usize, s: u32, r: &mut Rng) {
        let model = self.models[s as usize].clone();
        let stores = self.c.shard(n, s).get_stores();
        let pz = r.range(1, 6) as usize;
        let mut rows: Vec<(St, p::Message)> = vec![];
        for fm in model.fids.values() {
            for ((st, _), m) in &fm.rows {
                rows.push((*st, m.clone()));
            }
        }
        let set = |v: &[p::Message]| v.iter().map(|m| m.hash.clone()).collect::<BTreeSet<_>>();
        let mut parents: BTreeMap<String, (p::cast_add_body::Parent, BTreeSet<Vec<u8>>)> = BTreeMap::new();
        let mut mentions: BTreeMap<u64, BTreeSet<Vec<u8>>> = BTreeMap::new();
        let mut ltargets: BTreeMap<(u64, String), BTreeSet<Vec<u8>>> = BTreeMap::new();
        let mut rtargets: BTreeMap<(String, i32), (p::reaction_body::Target, BTreeSet<Vec<u8>>)> = BTreeMap::new();
        // ask also about what is gone: an index must forget with its message
        for u in ["https://a.example/x", "https://a.example/xy", "chain://1/erc721:0xaa"] {
            let x = p::cast_add_body::Parent::ParentUrl(u.into());
            parents.entry(format!("{x:?}")).or_insert((x, BTreeSet::new()));
            for t in 1..=2 {
                let x = p::reaction_body::Target::TargetUrl(u.into());
                rtargets.entry((format!("{x:?}"), t)).or_insert((x, BTreeSet::new()));
            }
        }
        for f in &self.k.fids {
            mentions.entry(*f).or_default();
            for t in ["follow", "block", "fol"] {
                ltargets.entry((*f, t.into())).or_default();
            }
        }
        for (_, m) in &rows {
            match body(m) {
                Body::CastAddBody(b) => {
                    if let Some(pa) = &b.parent {
                        parents.entry(format!("{pa:?}")).or_insert((pa.clone(), BTreeSet::new())).1.insert(m.hash.clone());
                    }
                    for x in &b.mentions {
                        mentions.entry(*x).or_default().insert(m.hash.clone());
                    }
                    let got = acct::CastStore::get_cast_add(&stores.cast_store, fid(m), m.hash.clone());
                    sim.check("B04", "by_key", matches!(&got, Ok(Some(x)) if x == m), || format!("shard {s}: stored {} is not found by its hash: {got:?}", msg_text(m)));
                }
                Body::LinkBody(b) => {
                    let t = match &b.target {
                        Some(p::link_body::Target::TargetFid(t)) => *t,
                        None => 0,
                    };
                    let e = ltargets.entry((t, b.r#type.clone())).or_default();
                    let got = acct::LinkStore::get_link_add(&stores.link_store, fid(m), b.r#type.clone(), b.target.clone());
                    if !is_remove(m) {
                        e.insert(m.hash.clone());
                        sim.check("B04", "by_key", matches!(&got, Ok(Some(x)) if x == m), || format!("shard {s}: stored {} is not found by its target: {got:?}", msg_text(m)));
                    } else {
                        sim.check("B04", "by_key", matches!(&got, Ok(None)), || format!("shard {s}: removed {} still answers as added: {got:?}", msg_text(m)));
                    }
                }
                Body::ReactionBody(b) => {
                    let tg = b.target.clone().unwrap();
                    let e = rtargets.entry((format!("{tg:?}"), b.r#type)).or_insert((tg.clone(), BTreeSet::new()));
                    let got = acct::ReactionStore::get_reaction_add(&stores.reaction_store, fid(m), b.r#type, b.target.clone());
                    if !is_remove(m) {
                        e.1.insert(m.hash.clone());
                        sim.check("B04", "by_key", matches!(&got, Ok(Some(x)) if x == m), || format!("shard {s}: stored {} is not found by its target: {got:?}", msg_text(m)));
                    } else {
                        sim.check("B04", "by_key", matches!(&got, Ok(None)), || format!("shard {s}: removed {} still answers as added: {got:?}", msg_text(m)));
                    }
                }
                Body::UserDataBody(b) => {
                    let t = p::UserDataType::try_from(b.r#type).unwrap();
                    let got = acct::UserDataStore::get_user_data_by_fid_and_type(&stores.user_data_store, fid(m), t);
                    sim.check("B04", "by_key", matches!(&got, Ok(x) if x == m), || format!("shard {s}: stored {} is not found by its type: {got:?}", msg_text(m)));
                }
                _ => {}
            }
        }
        for (name, pr) in &model.fnames {
            let got = acct::UserDataStore::get_username_proof(&stores.user_data_store, &stores.db.txn(), name);
            if pr.fid != 0 {
                sim.check("B06", "name_record", matches!(&got, Ok(Some(x)) if x == pr), || format!("shard {s}: {} belongs to {}, the store answers {got:?}", String::from_utf8_lossy(name), pr.fid));
                // an account with one name is found by it
                let mine: Vec<_> = model.fnames.values().filter(|x| x.fid == pr.fid).collect();
                if mine.len() == 1 && model.gone_names(pr.fid) {
                    let got = acct::UserDataStore::get_username_proof_by_fid(&stores.user_data_store, pr.fid);
                    sim.check("B06", "name_of_account", matches!(&got, Ok(Some(x)) if x == pr), || {
                        format!("shard {s}: account {} holds {}; asked by account the store answers {got:?}{}", pr.fid, String::from_utf8_lossy(name), if model.refreshed.contains(name) { " (proof refreshed for the same account)" } else { "" })
                    });
                }
            }
        }
        // asked by account, the store names nothing the account does not hold
        for f in &self.k.fids {
            if let Ok(Some(pr)) = acct::UserDataStore::get_username_proof_by_fid(&stores.user_data_store, *f) {
                let holds = model.fnames.get(&pr.name).is_some_and(|x| *x == pr && x.fid == *f);
                sim.check("B06", "name_of_former_owner", holds, || format!("shard {s}: asked for the name of {f}, the store answers {pr:?}, which it does not hold"));
            }
        }
        let mut nm: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        for (st, m) in &rows {
            if *st == St::Proof {
                if let Body::UsernameProofBody(b) = body(m) {
                    let prev = nm.insert(b.name.clone(), m.hash.clone());
                    sim.check("B06", "unique", prev.is_none(), || format!("two proofs for {}", String::from_utf8_lossy(&b.name)));
                    let got = acct::UsernameProofStore::get_username_proof(&stores.username_proof_store, &b.name, &stores.db.txn());
                    sim.check("B06", "proof_record", matches!(&got, Ok(Some(x)) if x == m), || format!("shard {s}: {} proves {}, the store answers {got:?}", msg_text(m), String::from_utf8_lossy(&b.name)));
                }
            }
        }
        for (pa, want) in parents.values() {
            let got = pages(pz, |o| acct::CastStore::get_casts_by_parent(&stores.cast_store, pa, o));
            sim.check("B04", "casts_by_parent", got.len() == want.len() && set(&got) == *want, || format!("shard {s}: replies to {pa:?}: index {:?}, stored {:?}", hashes(&got), want.iter().map(|h| short(h)).collect::<Vec<_>>()));
        }
        for (f, want) in &mentions {
            let got = pages(pz, |o| acct::CastStore::get_casts_by_mention(&stores.cast_store, *f, o));
            sim.check("B04", "casts_by_mention", set(&got) == *want, || format!("shard {s}: mentions of {f}: index {:?}, stored {:?}", hashes(&got), want.iter().map(|h| short(h)).collect::<Vec<_>>()));
        }
        for ((f, ty), want) in &ltargets {
            let got = pages(pz, |o| acct::LinkStore::get_links_by_target(&stores.link_store, &p::link_body::Target::TargetFid(*f), ty.clone(), o));
            sim.check("B04", "links_by_target", got.len() == want.len() && set(&got) == *want, || format!("shard {s}: {ty} links to {f}: index {:?}, stored {:?}", hashes(&got), want.iter().map(|h| short(h)).collect::<Vec<_>>()));
        }
        for ((_, ty), (tg, want)) in &rtargets {
            let got = pages(pz, |o| acct::ReactionStore::get_reactions_by_target(&stores.reaction_store, tg, *ty, o));
            sim.check("B04", "reactions_by_target", got.len() == want.len() && set(&got) == *want, || format!("shard {s}: reactions {ty} to {tg:?}: index {:?}, stored {:?}", hashes(&got), want.iter().map(|h| short(h)).collect::<Vec<_>>()));
        }
        // verifications of accounts whose home this is
        for (f, fm) in &model.fids {
            if home(*f, self.k.shards) != s {
                continue;
            }
            for m in fm.all(St::Verif) {
                if let Body::VerificationAddAddressBody(b) = body(m) {
                    let got = acct::VerificationStore::get_verification_add(&stores.verification_store, *f, &b.address, None);
                    sim.check("B04", "by_key", matches!(&got, Ok(Some(x)) if x == m), || format!("shard {s}: stored {} is not found by its address: {got:?}", msg_text(m)));
                }
            }
        }
    }

    fn audit_events(&mut self, sim: &mut Sim, n: usize, s: u32, r: &mut Rng) {
        use p::hub_event::Body as H;
        let page = r.range(1, 50) as usize;
        let evs = self.c.stored_events(n, s, 0, page);
        let mut ids: Vec<u64> = evs.iter().map(|e| e.id).collect();
        let rising = ids.windows(2).all(|w| w[0] < w[1]);
        sim.check("A09", "log_rises", rising, || format!("shard {s}: stored event ids do not rise"));
        ids.dedup();
        // every height has its confirmation, and exactly the number of events it announced
        let mut per: BTreeMap<u64, (u64, Option<u64>)> = BTreeMap::new();
        for e in &evs {
            let x = per.entry(e.id >> 14).or_default();
            x.0 += 1;
            if let Some(H::BlockConfirmedBody(b)) = &e.body {
                x.1 = Some(b.total_events);
            }
        }
        for h in 1..=self.c.chains[s as usize].len() as u64 {
            let x = per.get(&h).copied().unwrap_or_default();
            sim.check("B10", "log_complete", x.1 == Some(x.0), || format!("shard {s} height {h}: the log holds {} events, its confirmation announces {:?}", x.0, x.1));
        }
        // folding the log gives the stored messages
        let mut fold: BTreeMap<Vec<u8>, p::Message> = BTreeMap::new();
        for e in &evs {
            match &e.body {
                Some(H::MergeMessageBody(b)) => {
                    for d in &b.deleted_messages {
                        fold.remove(&d.hash);
                    }
                    let m = b.message.clone().unwrap();
                    fold.insert(m.hash.clone(), m);
                }
                Some(H::MergeUsernameProofBody(b)) => {
                    if let Some(d) = &b.deleted_username_proof_message {
                        fold.remove(&d.hash);
                    }
                    if let Some(m) = &b.username_proof_message {
                        fold.insert(m.hash.clone(), m.clone());
                    }
                }
                Some(H::PruneMessageBody(b)) => {
                    fold.remove(&b.message.as_ref().unwrap().hash);
                }
                Some(H::RevokeMessageBody(b)) => {
                    fold.remove(&b.message.as_ref().unwrap().hash);
                }
                _ => {}
            }
        }
        let mut want: BTreeSet<Vec<u8>> = BTreeSet::new();
        let mut text: BTreeMap<Vec<u8>, String> = BTreeMap::new();
        for (f, fm) in &self.models[s as usize].fids {
            for ((st, _), m) in &fm.rows {
                if *st == St::Verif && home(*f, self.k.shards) != s {
                    continue;
                }
                want.insert(m.hash.clone());
                text.insert(m.hash.clone(), msg_text(m));
            }
            for m in fm.compacts.values() {
                want.insert(m.hash.clone());
            }
        }
        let nsh = self.k.shards;
        let got: BTreeSet<Vec<u8>> = fold.iter().filter(|(_, m)| !(store_of(m) == Some(St::Verif) && home(fid(m), nsh) != s)).map(|(h, _)| h.clone()).collect();
        let extra: Vec<_> = got.difference(&want).map(|h| msg_text(&fold[h])).collect();
        let lost: Vec<_> = want.difference(&got).map(|h| text.get(h).cloned().unwrap_or_default()).collect();
        sim.check("B10", "fold_is_state", extra.is_empty() && lost.is_empty(), || format!("shard {s}: a follower of the event log ends with {extra:?} in excess and without {lost:?}"));
    }
}

fn history_of(k: &[u8]) -> Option<(u8, u64)> {
    history_height(k).map(|h| (k[0], h))
}
fn history_text(k: &[u8]) -> String {
    match history_of(k) {
        Some((9, h)) => format!("event {} of height {h}", u64::from_be_bytes(k[1..9].try_into().unwrap()) & 0x3fff),
        Some((_, h)) => format!("block {h}"),
        Option::None => format!("a row of kind {}: {}", k[0], hex::encode(k)),
    }
}
fn follow_text(v: &[([u8; 32], u32)]) -> Vec<(String, u32)> {
    v.iter().map(|(a, b)| (short(a), *b)).collect()
}
fn trie_root(e: &mut snapchain::storage::store::engine::ShardEngine) -> Vec<u8> {
    e.get_stores().trie.root_hash().unwrap_or_default()
}
fn hashes(v: &[p::Message]) -> Vec<String> {
    v.iter().map(|m| short(&m.hash)).collect()
}
pub fn event_message(e: &p::BlockEvent) -> Option<p::Message> {
    match e.data.as_ref()?.body.as_ref()? {
        p::block_event_data::Body::MergeMessageEventBody(b) => b.message.clone(),
        _ => None,
    }
}
pub fn pages(size: usize, mut f: impl FnMut(&PageOptions) -> Result<acct::MessagesPage, snapchain::core::error::HubError>) -> Vec<p::Message> {
    let mut out = vec![];
    let mut tok = None;
    for _ in 0..10_000 {
        match f(&PageOptions { page_size: Some(size), page_token: tok.clone(), reverse: false }) {
            Ok(pg) => {
                out.extend(pg.messages);
                tok = pg.next_page_token;
                if tok.is_none() {
                    break;
                }
            }
            Err(_) => break,
        }
    }
    out
}
/// Every message of an account in a store, a page at a time.
pub fn read_store(stores: &Stores, st: St, f: u64, size: usize, reverse: bool) -> (Vec<p::Message>, usize) {
    let mut out = vec![];
    let mut tok = None;
    let mut n = 0;
    for _ in 0..10_000 {
        let o = PageOptions { page_size: Some(size), page_token: tok.clone(), reverse };
        let pg = match st {
            St::Cast => stores.cast_store.get_all_messages_by_fid(f, None, None, &o),
            St::Link => stores.link_store.get_all_messages_by_fid(f, None, None, &o),
            St::React => stores.reaction_store.get_all_messages_by_fid(f, None, None, &o),
            St::Data => stores.user_data_store.get_all_messages_by_fid(f, None, None, &o),
            St::Proof => stores.username_proof_store.get_all_messages_by_fid(f, None, None, &o),
            St::Verif => stores.verification_store.get_all_messages_by_fid(f, None, None, &o),
        };
        match pg {
            Ok(pg) => {
                n += 1;
                out.extend(pg.messages);
                tok = pg.next_page_token;
                if tok.is_none() {
                    break;
                }
            }
            Err(_) => break,
        }
    }
    (out, n)
}

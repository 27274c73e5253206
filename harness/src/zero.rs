//! The world of shard 0: storage loans, keys without a chain, channels and address verifications are
//! decided there, and every other shard keeps a copy by replaying shard 0's events, in order, while
//! the chain's own events reach each shard when they like.
use crate::cluster::*;
use crate::core::*;
use rocksdb::sim as disk;
use crate::form::{self, At};
use crate::gen;
use crate::ledger::{dec, enc, event_message, home, of_shard_zero};
use crate::model;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::core::util::FarcasterTime;
use snapchain::proto as p;
use snapchain::proto::message_data::Body;
use snapchain::storage::db::{PageOptions, RocksDbTransactionBatch};
use snapchain::storage::store::account as acct;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::StoreLimits;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub struct Zero;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Knobs {
    base: u64,
    nodes: usize,
    shards: u32,
    fids: Vec<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
enum Op {
    Start { node: usize },
    Stop { node: usize },
    Arm { node: usize, writes: usize, crash: bool },
    Clock { ms: u64 },
    Skew { node: usize, ms: i64 },
    /// an event of the chain, on its way to these shards
    Ev { e: String, to: Vec<u32> },
    /// a shard stops (or starts again) hearing of the chain
    Hold { shard: u32, on: bool },
    Msg { m: String },
    Block { by: usize, max: usize, tamper: Vec<u32> },
    /// a data shard's block: so many of shard 0's events, and whether they come in order
    Chunk { shard: u32, by: usize, events: usize, how: String, max: usize },
    /// would shard 0 take it now
    Try { node: usize, m: String },
    Audit { node: usize },
}

const NET: p::FarcasterNetwork = p::FarcasterNetwork::Devnet;
const DAY: u64 = 86_400;
const YEAR: u64 = 365 * DAY;
const CHANNELS: u64 = 4;
const WALLETS: u64 = 8;

fn wallet(n: u64) -> alloy_signer_local::PrivateKeySigner {
    gen::eth("w", n)
}
fn addr(n: u64) -> Vec<u8> {
    wallet(n).address().to_vec()
}
fn chan(n: u64) -> String {
    format!("chan{n}")
}

// ------------------------------------------------------------------ what is drawn

struct Draw {
    k: Knobs,
    t: u64,
    n: u64,
    unonce: BTreeMap<u64, u32>,
    anonce: BTreeMap<u64, u32>,
    custody: BTreeMap<u64, u64>,
    past: Vec<p::Message>,
    events: Vec<(p::OnChainEvent, Vec<u32>)>,
    chan_owner: BTreeMap<u64, u64>,
}
impl Draw {
    fn now(&self) -> u64 {
        self.k.base + self.t
    }
    fn seq(&mut self) -> u64 {
        self.n += 1;
        self.n
    }
    fn ts(&self, r: &mut Rng) -> u32 {
        let d = match r.below(10) {
            0 => -(r.below(3000) as i64),
            1 => r.below(900) as i64,
            2..=4 => -(r.below(60) as i64),
            _ => -(r.below(4) as i64),
        };
        ((self.now() - gen::FC_EPOCH) as i64 + d) as u32
    }
    fn dests(&self, e: &p::OnChainEvent) -> Vec<u32> {
        vec![0, home(e.fid, self.k.shards)]
    }
    fn custody(&self, f: u64) -> alloy_signer_local::PrivateKeySigner {
        gen::custody(f, self.custody.get(&f).copied().unwrap_or(0))
    }
    fn rent(&mut self, r: &mut Rng, f: u64) -> p::OnChainEvent {
        let now = self.now();
        let n = self.seq();
        let units = *r.pick(&[1, 1, 2, 3, 5, 10]);
        let edge = r.range(3, 200);
        let bought = if self.k.base > crate::sys::BASE_UNIX {
            match r.below(6) {
                0 => now - 4 * YEAR + edge,
                1 => now - 3 * YEAR + edge,
                2 => now - 2 * YEAR + edge,
                3 => now - YEAR + edge,
                4 => now - 3 * YEAR + 90 * DAY,
                _ => now - r.below(1000),
            }
        } else {
            match r.below(4) {
                0 => 1_724_889_599 - r.below(100),
                1 => 1_752_425_000,
                _ => now - r.below(1000),
            }
        };
        gen::rent(f, units, bought, n)
    }
    fn event(&mut self, r: &mut Rng) -> (p::OnChainEvent, Vec<u32>) {
        if !self.events.is_empty() && r.chance(120) {
            return r.pick(&self.events).clone();
        }
        let f = *r.pick(&self.k.fids);
        let now = self.now();
        let n = self.seq();
        let e = match r.below(20) {
            0..=5 => self.rent(r, f),
            6..=8 => {
                let c = self.custody.entry(f).or_insert(0);
                if r.chance(700) {
                    *c += 1;
                }
                let to = gen::custody(f, *c).address().to_vec();
                gen::id_register(f, to, true, now - r.below(30), n)
            }
            9..=12 => {
                let key = match r.below(4) {
                    0 => gen::pubkey(f, 0),
                    1 => gen::pubkey(f, 1),
                    _ => gen::pubkey(f, 100 + r.below(4)),
                };
                gen::signer_event(f, key, r.chance(600), now - r.below(30), n)
            }
            _ => {
                let c = r.below(CHANNELS + 1);
                let w = match r.below(4) {
                    0 => r.below(WALLETS),
                    _ => c % WALLETS,
                };
                let ty = *r.pick(&[
                    p::ChannelRegisterEventType::Register,
                    p::ChannelRegisterEventType::Renew,
                    p::ChannelRegisterEventType::Transfer,
                    p::ChannelRegisterEventType::Transfer,
                ]);
                self.chan_owner.insert(c, w);
                let mut e = gen::channel_event(&chan(c), ty, addr(w), now + r.below(1000), now - r.below(60), n);
                if r.chance(300) {
                    // several in one Ethereum block, or one transaction
                    e.block_number = ((now / 60 * 60 - 1_600_000_000) * 2) as u32;
                    e.tx_index = r.below(3) as u32;
                }
                if let Some(p::on_chain_event::Body::ChannelRegisterEventBody(b)) = &mut e.body {
                    match r.below(30) {
                        0 => b.label[3] ^= 1,
                        1 => b.owner_address.truncate(19),
                        2 => b.label.truncate(31),
                        3 => b.channel_key.push('x'),
                        _ => {}
                    }
                }
                e
            }
        };
        let d = self.dests(&e);
        self.events.push((e.clone(), d.clone()));
        (e, d)
    }
    fn key(&self, r: &mut Rng, f: u64) -> ed25519_dalek::SigningKey {
        match r.below(12) {
            0 => gen::signer(*r.pick(&self.k.fids), 100 + r.below(4)),
            1 => gen::signer(f, 1),
            _ => gen::signer(f, 100 + r.below(4)),
        }
    }
    /// Who signs it: usually the key the chain knows, at times one shard 0 was told of, at times neither.
    fn signer(&self, r: &mut Rng, f: u64, gasless: u64) -> ed25519_dalek::SigningKey {
        if r.chance(gasless) {
            gen::signer(f, 100 + r.below(4))
        } else if r.chance(30) {
            gen::signer(f, 1)
        } else {
            gen::signer(f, 0)
        }
    }
    fn message(&mut self, r: &mut Rng, focus: &str) -> p::Message {
        if !self.past.is_empty() && r.chance(60) {
            return r.pick(&self.past).clone();
        }
        let w = |p: &str, n: u64| if focus == p { n * 5 } else { n };
        let ws = [w("B11", 10), w("B12", 16), w("B13", 30), w("B14", 16), w("B12", 10)];
        let mut x = r.below(ws.iter().sum());
        let mut kind = 0;
        while x >= ws[kind] {
            x -= ws[kind];
            kind += 1;
        }
        let f = *r.pick(&self.k.fids);
        let ts = self.ts(r);
        let m = match kind {
            0 => {
                let to_fid = if r.chance(50) { r.range(1, 5) } else { *r.pick(&self.k.fids) };
                let b = p::LendStorageBody { to_fid, num_units: *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 5, 9]), unit_type: r.below(3) as i32 };
                gen::message(f, p::MessageType::LendStorage, ts, Body::LendStorageBody(b), &self.signer(r, f, 150), NET)
            }
            1 => self.key_message(r, f, ts),
            2 => self.channel_message(r, f, ts),
            3 => self.verification(r, f, ts),
            _ => self.cast(r, f, ts),
        };
        self.past.push(m.clone());
        m
    }
    fn key_message(&mut self, r: &mut Rng, f: u64, ts: u32) -> p::Message {
        let key = self.key(r, f);
        let now = (self.now() - gen::FC_EPOCH) as u32;
        let deadline = now + *r.pick(&[3, 60, 60, 3600, 3600, 3600]);
        if r.chance(650) {
            let request_fid = *r.pick(&self.k.fids[..2]);
            let n = self.unonce.entry(f).or_insert(0);
            let nonce = match r.below(12) {
                0 => *n,
                1 => *n + 50,
                2 => n.saturating_sub(1),
                _ => *n + 1,
            };
            *n = nonce.max(*n);
            let scopes = match r.below(5) {
                0 => vec![1],
                1 => vec![1, 2, 3, 4, 5, 6, 7, 8, 11],
                _ => [1, 2, 3, 4, 7, 8, 15].into_iter().filter(|_| r.chance(700)).chain([1]).collect::<BTreeSet<i32>>().into_iter().collect(),
            };
            let ttl = *r.pick(&[1, 30, 30, 120, 3600, 86_400, 7_776_000]);
            let a = gen::KeyAdd { fid: f, key: key.clone(), scopes, ttl, nonce, deadline, request_fid };
            let cust = if r.chance(60) { gen::custody(f, 77) } else { self.custody(f) };
            let app = if r.chance(50) { gen::custody(f, 78) } else { self.custody(request_fid) };
            let mut b = gen::key_add_body(&a, &cust, &app);
            match r.below(40) {
                0 => b.ttl += 1,
                1 => b.scopes.push(5),
                2 => b.deadline += 1000,
                3 => b.nonce += 1,
                _ => {}
            }
            return gen::message(f, p::MessageType::KeyAdd, ts, Body::KeyAddBody(b), &key, NET);
        }
        let pk = key.verifying_key().to_bytes().to_vec();
        if r.chance(500) {
            let n = self.unonce.entry(f).or_insert(0);
            let nonce = if r.chance(150) { *n } else { *n + 1 };
            *n = nonce.max(*n);
            let cust = if r.chance(100) { gen::custody(f, 77) } else { self.custody(f) };
            let b = gen::key_remove_custody_body(f, &pk, nonce, deadline, &cust);
            gen::message(f, p::MessageType::KeyRemove, ts, Body::KeyRemoveBody(b), &key, NET)
        } else {
            let a = *r.pick(&self.k.fids[..2]);
            let n = self.anonce.entry(a).or_insert(0);
            let nonce = if r.chance(200) { *n } else { *n + 1 };
            *n = nonce.max(*n);
            let b = p::KeyRemoveBody { key: pk, signature: vec![1; 64], signature_type: 2, deadline, nonce };
            let by = if r.chance(150) { self.key(r, f) } else { key };
            gen::message(f, p::MessageType::KeyRemove, ts, Body::KeyRemoveBody(b), &by, NET)
        }
    }
    fn channel_message(&mut self, r: &mut Rng, f: u64, ts: u32) -> p::Message {
        let c = r.below(CHANNELS + 1);
        let mut channel_id = gen::channel_id(&chan(c));
        if r.chance(20) {
            channel_id[0] ^= 1;
        }
        // the owner, more often than chance would have it
        let f = if r.chance(450) { self.k.fids[(self.chan_owner.get(&c).copied().unwrap_or(c) % self.k.fids.len() as u64) as usize] } else { f };
        let key = self.signer(r, f, 60);
        match r.below(20) {
            0..=2 => {
                let b = p::ChannelUpdateBody {
                    channel_id,
                    name: Some(format!("n{}", r.below(3))),
                    casting_mode: *r.pick(&[None, Some(0), Some(1)]),
                    membership_mode: *r.pick(&[None, Some(0), Some(1), Some(1), Some(2)]),
                    ..Default::default()
                };
                gen::message(f, p::MessageType::ChannelUpdate, ts, Body::ChannelUpdateBody(b), &key, NET)
            }
            3..=4 => {
                let cast_hash = if r.chance(300) { vec![] } else { vec![r.below(3) as u8; 20] };
                gen::message(f, p::MessageType::ChannelPin, ts, Body::ChannelPinBody(p::ChannelPinBody { channel_id, cast_hash }), &key, NET)
            }
            5..=7 => {
                let b = p::ChannelModerateBody { channel_id, cast_hash: vec![r.below(3) as u8; 20], action: r.range(1, 2) as i32 };
                gen::message(f, p::MessageType::ChannelModerate, ts, Body::ChannelModerateBody(b), &key, NET)
            }
            _ => {
                let target = match r.below(8) {
                    0..=1 => f,
                    2 => r.range(900, 912),
                    _ => *r.pick(&self.k.fids),
                };
                let action = *r.pick(&[1, 1, 1, 2, 2, 3, 3, 4, 5, 5, 6]);
                let b = p::ChannelMemberBody { channel_id, fid: target, action };
                gen::message(f, p::MessageType::ChannelMember, ts, Body::ChannelMemberBody(b), &key, NET)
            }
        }
    }
    fn verification(&mut self, r: &mut Rng, f: u64, ts: u32) -> p::Message {
        let w = if r.chance(600) { (self.k.fids.iter().position(|x| *x == f).unwrap() as u64) % WALLETS } else { r.below(WALLETS) };
        let key = self.signer(r, f, 100);
        let bh = vec![r.below(2) as u8; 32];
        match r.below(10) {
            0..=5 => gen::message(f, p::MessageType::VerificationAddEthAddress, ts, Body::VerificationAddAddressBody(gen::verification_eth(f, &wallet(w), &bh, NET)), &key, NET),
            6 => gen::message(f, p::MessageType::VerificationAddEthAddress, ts, Body::VerificationAddAddressBody(gen::verification_sol(f, &gen::signer(w, 50), &bh, NET)), &key, NET),
            7 => self.verification_remove(r, f, ts, gen::pubkey(w, 50), 1),
            _ => self.verification_remove(r, f, ts, addr(w), 0),
        }
    }
    fn verification_remove(&mut self, r: &mut Rng, f: u64, ts: u32, address: Vec<u8>, protocol: i32) -> p::Message {
        let key = self.signer(r, f, 60);
        gen::message(f, p::MessageType::VerificationRemove, ts, Body::VerificationRemoveBody(p::VerificationRemoveBody { address, protocol }), &key, NET)
    }
    fn cast(&mut self, r: &mut Rng, f: u64, ts: u32) -> p::Message {
        let key = self.signer(r, f, 850);
        if r.chance(800) {
            let n = self.seq();
            let b = p::CastAddBody { text: format!("c{n}"), ..Default::default() };
            gen::message(f, p::MessageType::CastAdd, ts, Body::CastAddBody(b), &key, NET)
        } else {
            let b = p::CastRemoveBody { target_hash: r.bytes(20) };
            gen::message(f, p::MessageType::CastRemove, ts, Body::CastRemoveBody(b), &key, NET)
        }
    }
}

impl World for Zero {
    fn name(&self) -> &'static str {
        "zero"
    }
    fn generate(&self, seed: u64, focus: &str, thorough: bool) -> Case {
        let root = Rng::new(seed);
        let mut r = root.fork("plan");
        let r = &mut r;
        let k = Knobs {
            base: *r.pick(&[crate::sys::BASE_UNIX, 1_819_600_000]),
            nodes: r.range(1, 3) as usize,
            shards: r.range(1, 2) as u32,
            fids: {
                let n = r.range(3, 5);
                gen::accounts(&mut root.fork("accounts"), n)
            },
        };
        let mut d = Draw {
            k: k.clone(),
            t: 0,
            n: 0,
            unonce: BTreeMap::new(),
            anonce: BTreeMap::new(),
            custody: BTreeMap::new(),
            past: vec![],
            events: vec![],
            chan_owner: BTreeMap::new(),
        };
        let mut plan: Vec<serde_json::Value> = vec![];
        let mut push = |o: Op| plan.push(serde_json::to_value(&o).unwrap());
        for node in 0..k.nodes {
            push(Op::Start { node });
        }
        for f in k.fids.clone() {
            let mut es = vec![];
            let n = d.seq();
            if r.chance(970) {
                es.push(gen::id_register(f, d.custody(f).address().to_vec(), false, d.now() - 100, n));
            }
            for _ in 0..r.range(0, 3) {
                es.push(d.rent(r, f));
            }
            let n = d.seq();
            es.push(gen::signer_event(f, gen::pubkey(f, 0), true, d.now() - 90, n));
            for e in es {
                let to = d.dests(&e);
                d.events.push((e.clone(), to.clone()));
                push(Op::Ev { e: enc(&e), to });
            }
        }
        for c in 0..CHANNELS {
            if r.chance(800) {
                let n = d.seq();
                let w = c % k.fids.len() as u64;
                d.chan_owner.insert(c, w);
                let e = gen::channel_event(&chan(c), p::ChannelRegisterEventType::Register, addr(w), d.now() + 500, d.now() - 80, n);
                let to = d.dests(&e);
                push(Op::Ev { e: enc(&e), to });
            }
        }
        push(Op::Block { by: 0, max: 999, tamper: vec![] });
        for (i, f) in k.fids.clone().iter().enumerate() {
            if r.chance(850) {
                let ts = d.ts(r);
                let m = gen::message(
                    *f,
                    p::MessageType::VerificationAddEthAddress,
                    ts,
                    Body::VerificationAddAddressBody(gen::verification_eth(*f, &wallet(i as u64), &[0; 32], NET)),
                    &gen::signer(*f, 0),
                    NET,
                );
                push(Op::Msg { m: enc(&m) });
            }
        }
        d.t += 1;
        let steps = if thorough { 140 } else { 70 };
        // at times one user floods shard 0 with removals of addresses it never had
        let flood = if focus == "B14" && r.chance(60) || r.chance(8) { Some(r.below(steps)) } else { None };
        for s in 0..steps {
            let node = r.below(k.nodes as u64) as usize;
            let shard = r.range(1, k.shards as u64) as u32;
            if flood == Some(s) {
                let f = *r.pick(&k.fids);
                for i in 0..r.range(250, 330) {
                    let ts = d.ts(r);
                    let a = blake3::hash(&i.to_be_bytes()).as_bytes()[..20].to_vec();
                    let m = d.verification_remove(r, f, ts, a, 0);
                    push(Op::Msg { m: enc(&m) });
                }
                push(Op::Block { by: node, max: 999, tamper: vec![] });
                d.t += 1;
            }
            // at times an account fills its verifications, then gives one up and takes others in one block
            if r.chance(if focus == "B14" { 30 } else { 3 }) {
                let f = *r.pick(&k.fids);
                let mut u = [0; 3];
                let mut seen = BTreeSet::new();
                for (e, _) in &d.events {
                    if let Some(p::on_chain_event::Body::StorageRentEventBody(b)) = &e.body {
                        if e.fid == f && seen.insert((e.block_number, e.log_index)) {
                            let (kind, n, end) = model::rent(e.block_timestamp, b.units);
                            u[kind] += if d.now() < end { n as u64 } else { 0 };
                        }
                    }
                }
                let n = quota(u);
                if n > 0 && n <= 75 {
                    let first = 1000 + r.below(3);
                    let verify = |d: &mut Draw, r: &mut Rng, w: u64| {
                        let ts = d.ts(r);
                        let b = Body::VerificationAddAddressBody(gen::verification_eth(f, &wallet(w), &[0; 32], NET));
                        gen::message(f, p::MessageType::VerificationAddEthAddress, ts, b, &gen::signer(f, 0), NET)
                    };
                    let last = first + n - r.below(3).min(n);
                    for w in first..last {
                        let m = verify(&mut d, r, w);
                        push(Op::Msg { m: enc(&m) });
                    }
                    push(Op::Block { by: node, max: 999, tamper: vec![] });
                    d.t += 1;
                    for _ in 0..r.range(1, 3) {
                        let w = r.range(first, last);
                        for _ in 0..r.range(2, 5) {
                            let m = match r.below(5) {
                                0 | 1 => {
                                    let ts = d.ts(r);
                                    d.verification_remove(r, f, ts, addr(w), 0)
                                }
                                2 | 3 => verify(&mut d, r, w),
                                _ => {
                                    let w = last + r.below(3);
                                    verify(&mut d, r, w)
                                }
                            };
                            push(Op::Msg { m: enc(&m) });
                        }
                        push(Op::Block { by: node, max: 999, tamper: vec![] });
                        d.t += 1;
                    }
                }
            }
            // at times a channel's owner withdraws what ties the address to the account
            if r.chance(if focus == "B13" { 30 } else { 5 }) {
                let c = r.below(CHANNELS);
                let w = d.chan_owner.get(&c).copied().unwrap_or(c) % k.fids.len() as u64;
                let f = k.fids[w as usize];
                let channel_id = gen::channel_id(&chan(c));
                let mut say = |d: &mut Draw, r: &mut Rng, f: u64, ty, body| {
                    let ts = d.ts(r);
                    let m = gen::message(f, ty, ts, body, &gen::signer(f, 0), NET);
                    d.past.push(m.clone());
                    push(Op::Msg { m: enc(&m) });
                };
                let b = p::ChannelUpdateBody { channel_id: channel_id.clone(), name: Some("p".into()), membership_mode: Some(r.below(2) as i32), ..Default::default() };
                say(&mut d, r, f, p::MessageType::ChannelUpdate, Body::ChannelUpdateBody(b));
                let gone = p::VerificationRemoveBody { address: addr(w), protocol: 0 };
                say(&mut d, r, f, p::MessageType::VerificationRemove, Body::VerificationRemoveBody(gone));
                for _ in 0..r.range(1, 5) {
                    let g = *r.pick(&k.fids);
                    let target = if r.chance(700) { g } else { *r.pick(&k.fids) };
                    let b = p::ChannelMemberBody { channel_id: channel_id.clone(), fid: target, action: *r.pick(&[1, 1, 2, 3, 5]) };
                    say(&mut d, r, g, p::MessageType::ChannelMember, Body::ChannelMemberBody(b));
                }
                push(Op::Block { by: node, max: 999, tamper: vec![] });
                d.t += 1;
                if r.chance(700) {
                    let m = d.verification(r, f, ((d.now() - gen::FC_EPOCH) + 1) as u32);
                    push(Op::Msg { m: enc(&m) });
                }
            }
            // at times an account spends all it has at once, perhaps counting a purchase twice
            if r.chance(if focus == "B11" { 60 } else { 8 }) {
                let f = *r.pick(&k.fids);
                let mine: Vec<_> = d.events.iter().filter(|(e, _)| e.fid == f && e.r#type() == p::OnChainEventType::EventTypeStorageRent).cloned().collect();
                if !mine.is_empty() && r.chance(600) {
                    let (e, to) = r.pick(&mine).clone();
                    for _ in 0..r.range(1, 2) {
                        push(Op::Ev { e: enc(&e), to: to.clone() });
                    }
                }
                let kind = r.below(3) as i32;
                for _ in 0..r.range(1, 4) {
                    let b = p::LendStorageBody { to_fid: *r.pick(&k.fids), num_units: *r.pick(&[1, 1, 2, 3, 4, 5, 9, 10]), unit_type: kind };
                    let ts = d.ts(r);
                    let m = gen::message(f, p::MessageType::LendStorage, ts, Body::LendStorageBody(b), &gen::signer(f, 0), NET);
                    d.past.push(m.clone());
                    push(Op::Msg { m: enc(&m) });
                }
                push(Op::Block { by: node, max: 999, tamper: vec![] });
                d.t += 1;
            }
            match r.below(100) {
                0..=44 => {
                    let m = d.message(r, focus);
                    push(Op::Msg { m: enc(&m) });
                    if r.chance(100) {
                        push(Op::Try { node, m: enc(&m) });
                    }
                }
                45..=54 => {
                    let (e, to) = d.event(r);
                    push(Op::Ev { e: enc(&e), to });
                }
                55..=70 => {
                    let tamper = if r.chance(if focus == "A07" { 600 } else { 150 }) { (0..r.range(1, 3)).map(|_| r.below(12) as u32).collect() } else { vec![] };
                    push(Op::Block { by: node, max: *r.pick(&[1, 3, 8, 999]), tamper });
                    d.t += 1;
                }
                71..=84 => {
                    let how = r.pick(&["ok", "ok", "ok", "ok", "dup", "gap", "reorder"]).to_string();
                    push(Op::Chunk { shard, by: node, events: *r.pick(&[0, 1, 2, 5, 20]), how, max: *r.pick(&[0, 2, 8, 999]) });
                    d.t += 1;
                }
                85..=88 => {
                    let ms = *r.pick(&[1000u64, 5000, 20_000, 31_000, 31_000, 125_000, 600_000, 3_700_000]);
                    d.t += ms / 1000;
                    push(Op::Clock { ms });
                }
                89 => push(Op::Skew { node, ms: *r.pick(&[0, 0, 1000, -1000, 3_600_000, -3_600_000]) }),
                90 => push(Op::Stop { node }),
                91..=93 => push(Op::Start { node }),
                94 => push(Op::Arm { node, writes: r.below(4) as usize, crash: r.chance(600) }),
                95 => push(Op::Hold { shard: r.range(0, k.shards as u64) as u32, on: r.chance(500) }),
                96..=97 => {
                    let m = d.message(r, focus);
                    push(Op::Try { node, m: enc(&m) });
                }
                _ => push(Op::Audit { node }),
            }
        }
        Case { world: "zero".into(), seed, knobs: serde_json::to_value(&k).unwrap(), plan }
    }
    fn run(&self, case: &Case, sim: &mut Sim) {
        let k: Knobs = serde_json::from_value(case.knobs.clone()).unwrap();
        crate::sys::set_base_unix_ms(k.base as i64 * 1000);
        let base = std::env::current_dir().unwrap();
        let c = Cluster::new(&base, k.nodes, k.shards, StoreLimits::default());
        let n = k.shards as usize + 1;
        let mut w = Run {
            c,
            m: (0..n).map(|_| Copy::default()).collect(),
            pools: vec![VecDeque::new(); n],
            held: vec![None; n],
            elapsed: 0,
            dead: false,
            seen: BTreeMap::new(),
            k,
        };
        for (i, v) in case.plan.iter().enumerate() {
            let op: Op = serde_json::from_value(v.clone()).unwrap();
            w.step(sim, i, op);
            if w.dead {
                break;
            }
        }
        if !w.dead {
            w.finish(sim);
        }
        std::mem::forget(w);
    }
}

// ------------------------------------------------------------------ the model

#[derive(Clone, Debug, Default)]
struct Chan {
    update: Option<p::Message>,
    /// target -> (its state, who says so)
    members: BTreeMap<u64, p::Message>,
    pin: Option<p::Message>,
    mods: BTreeMap<Vec<u8>, p::Message>,
}
#[derive(Clone, Debug, PartialEq)]
struct Reg {
    key: String,
    owner: Vec<u8>,
    expiry: u64,
    at: (u32, u32, u32),
}
#[derive(Clone, Debug)]
struct Key {
    m: p::Message,
    request_fid: u64,
}
/// What a shard holds of all this.
#[derive(Clone, Debug, Default)]
struct Copy {
    /// the last of shard 0's events it took
    seq: u64,
    chain: BTreeSet<Vec<u8>>,
    custody: BTreeMap<u64, (Vec<u8>, u32)>,
    signers: BTreeMap<(u64, Vec<u8>), (bool, u32)>,
    rents: BTreeMap<u64, Vec<(u64, u32)>>,
    lends: BTreeMap<(u64, u64), p::Message>,
    keys: BTreeMap<(u64, Vec<u8>), Key>,
    owner: BTreeMap<Vec<u8>, u64>,
    used: BTreeMap<(u64, Vec<u8>), u32>,
    user_nonce: BTreeMap<u64, u32>,
    app_nonce: BTreeMap<u64, u32>,
    verifs: BTreeMap<(u64, Vec<u8>), p::Message>,
    /// what the shard said it pruned or revoked
    gone: BTreeSet<Vec<u8>>,
    regs: BTreeMap<Vec<u8>, Reg>,
    chans: BTreeMap<Vec<u8>, Chan>,
}
type U = [u64; 3];
fn add(a: U, b: U) -> U {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: U, b: U) -> U {
    [a[0].saturating_sub(b[0]), a[1].saturating_sub(b[1]), a[2].saturating_sub(b[2])]
}
fn lent(m: &p::Message) -> U {
    let mut u = [0; 3];
    if let Body::LendStorageBody(b) = model::body(m) {
        u[b.unit_type as usize] = b.num_units;
    }
    u
}
fn verif_addr(m: &p::Message) -> Vec<u8> {
    match model::body(m) {
        Body::VerificationAddAddressBody(b) => b.address.clone(),
        Body::VerificationRemoveBody(b) => b.address.clone(),
        _ => vec![],
    }
}
fn is_add(m: &p::Message) -> bool {
    matches!(model::body(m), Body::VerificationAddAddressBody(_))
}
fn quota(u: U) -> u64 {
    25 * u[0] + 25 * u[1] + 5 * u[2]
}
fn action(m: &p::Message) -> i32 {
    match model::body(m) {
        Body::ChannelMemberBody(b) => b.action,
        _ => 0,
    }
}
/// the state an accepted action leaves its target in
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mem {
    Member,
    Moderator,
    Removed,
    Banned,
}
fn state(m: &p::Message) -> Mem {
    match action(m) {
        1 | 4 => Mem::Member,
        3 => Mem::Moderator,
        5 => Mem::Banned,
        _ => Mem::Removed,
    }
}

impl Copy {
    fn own(&self, f: u64, now: u64) -> U {
        let mut u = [0; 3];
        for (bought, units) in self.rents.get(&f).into_iter().flatten() {
            let (kind, n, end) = model::rent(*bought, *units);
            if now < end {
                u[kind] += n as u64;
            }
        }
        u
    }
    fn lent(&self, f: u64) -> U {
        self.lends.iter().filter(|x| x.0 .0 == f).fold([0; 3], |a, x| add(a, lent(x.1)))
    }
    fn borrowed(&self, f: u64) -> U {
        self.lends.iter().filter(|x| x.0 .1 == f).fold([0; 3], |a, x| add(a, lent(x.1)))
    }
    /// May the account write at all: it once bought what has not run out, or someone lent it some.
    fn active(&self, f: u64, now: u64) -> bool {
        self.own(f, now) != [0; 3] || self.borrowed(f) != [0; 3]
    }
    fn signer_on_chain(&self, f: u64, key: &[u8]) -> bool {
        self.signers.get(&(f, key.to_vec())).is_some_and(|x| x.0)
    }
    /// An event of the chain arrives; whether it is news.
    fn chain_event(&mut self, e: &p::OnChainEvent) -> bool {
        use p::on_chain_event::Body as B;
        if !self.chain.insert(model::ShardM::onchain_key(e)) {
            return false;
        }
        match e.body.as_ref().unwrap() {
            B::StorageRentEventBody(b) => self.rents.entry(e.fid).or_default().push((e.block_timestamp, b.units)),
            B::IdRegisterEventBody(b) => {
                if self.custody.get(&e.fid).is_none_or(|x| x.1 <= e.block_number) {
                    self.custody.insert(e.fid, (b.to.clone(), e.block_number));
                }
            }
            B::SignerEventBody(b) => {
                let k = (e.fid, b.key.clone());
                if self.signers.get(&k).is_none_or(|x| x.1 <= e.block_number) {
                    self.signers.insert(k, (b.event_type == p::SignerEventType::Add as i32, e.block_number));
                }
            }
            B::ChannelRegisterEventBody(b) => self.registry(e, b),
            _ => {}
        }
        true
    }
    fn registry(&mut self, e: &p::OnChainEvent, b: &p::ChannelRegisterBody) {
        use p::ChannelRegisterEventType as T;
        let at = (e.block_number, e.tx_index, e.log_index);
        if b.label.len() != 32 {
            return;
        }
        let old = self.regs.get(&b.label).cloned();
        if old.as_ref().is_some_and(|o| at < o.at) {
            return;
        }
        let matches = gen::channel_id(&b.channel_key) == b.label;
        let new = match (b.event_type(), old) {
            (T::Register, _) if matches && b.owner_address.len() == 20 => Reg { key: b.channel_key.clone(), owner: b.owner_address.clone(), expiry: b.expiry, at },
            (T::Renew, Some(o)) if matches => Reg { expiry: b.expiry, at, ..o },
            (T::Transfer, Some(o)) if b.owner_address.len() == 20 => Reg { owner: b.owner_address.clone(), at, ..o },
            _ => return,
        };
        self.regs.insert(b.label.clone(), new);
    }
    /// The account that speaks for an address: the latest claim to it.
    fn speaks_for(&self, address: &[u8]) -> Option<u64> {
        self.verifs
            .iter()
            .filter(|((_, a), m)| a == address && is_add(m))
            .max_by(|a, b| (model::ts(a.1), &a.1.hash).cmp(&(model::ts(b.1), &b.1.hash)).then(b.0 .0.cmp(&a.0 .0)))
            .map(|x| x.0 .0)
    }
    /// An accepted message takes effect; the loan it replaces comes back.
    fn take(&mut self, m: &p::Message) -> U {
        let f = model::fid(m);
        match model::body(m) {
            Body::LendStorageBody(b) => {
                let old = self.lends.insert((f, b.to_fid), m.clone());
                if b.num_units == 0 {
                    self.lends.remove(&(f, b.to_fid));
                }
                return old.map(|o| lent(&o)).unwrap_or_default();
            }
            Body::KeyAddBody(b) => {
                let request_fid = gen::key_request(&b.metadata).map_or(0, |x| x.0);
                let k = (f, b.key.clone());
                self.owner.insert(b.key.clone(), f);
                self.used.insert(k.clone(), model::ts(m));
                self.keys.insert(k, Key { m: m.clone(), request_fid });
                self.user_nonce.insert(f, b.nonce);
            }
            Body::KeyRemoveBody(b) => {
                let k = (f, b.key.clone());
                let rec = self.keys.remove(&k);
                self.used.remove(&k);
                self.owner.remove(&b.key);
                if b.signature_type == 2 {
                    if let Some(r) = rec {
                        self.app_nonce.insert(r.request_fid, b.nonce);
                    }
                } else {
                    self.user_nonce.insert(f, b.nonce);
                }
            }
            Body::VerificationAddAddressBody(_) | Body::VerificationRemoveBody(_) => {
                self.verifs.insert((f, verif_addr(m)), m.clone());
                self.gone.remove(&m.hash);
            }
            Body::ChannelUpdateBody(b) => self.chans.entry(b.channel_id.clone()).or_default().update = Some(m.clone()),
            Body::ChannelPinBody(b) => self.chans.entry(b.channel_id.clone()).or_default().pin = Some(m.clone()),
            Body::ChannelMemberBody(b) => {
                self.chans.entry(b.channel_id.clone()).or_default().members.insert(b.fid, m.clone());
            }
            Body::ChannelModerateBody(b) => {
                self.chans.entry(b.channel_id.clone()).or_default().mods.insert(b.cast_hash.clone(), m.clone());
            }
            _ => {}
        }
        [0; 3]
    }
    /// One of shard 0's events, in turn.
    fn event(&mut self, e: &p::BlockEvent) {
        let d = e.data.as_ref().unwrap();
        if d.seqnum != self.seq + 1 {
            return;
        }
        self.seq = d.seqnum;
        match &d.body {
            Some(p::block_event_data::Body::MergeMessageEventBody(b)) => {
                self.take(b.message.as_ref().unwrap());
            }
            Some(p::block_event_data::Body::MergeOnChainEventEventBody(b)) => {
                // the registry follows shard 0; the event itself arrives on its own
                let e = b.on_chain_event.as_ref().unwrap();
                if let Some(p::on_chain_event::Body::ChannelRegisterEventBody(b)) = &e.body {
                    self.registry(e, b);
                }
            }
            _ => {}
        }
    }
    /// Does this signer speak for this account, for this kind of message, now?  A key that does has been used.
    fn signed(&mut self, m: &p::Message, now: u64) -> Result<(), &'static str> {
        let f = model::fid(m);
        if self.signer_on_chain(f, &m.signer) {
            return Ok(());
        }
        let k = (f, m.signer.clone());
        let rec = self.keys.get(&k).ok_or("no such key")?;
        let b = match model::body(&rec.m) {
            Body::KeyAddBody(b) => b,
            _ => unreachable!(),
        };
        if !b.scopes.contains(&m.data.as_ref().unwrap().r#type) {
            return Err("key out of scope");
        }
        let ts = (now - gen::FC_EPOCH) as u64;
        let used = self.used[&k];
        if used as u64 + (b.ttl as u64) < ts {
            return Err("key expired");
        }
        if model::ts(m) > used + 300 {
            self.used.insert(k, model::ts(m));
        }
        Ok(())
    }
    /// Shard 0's verdict.  Err(true): refused while being judged; Err(false): judged fit, then refused.
    fn verdict(&mut self, m: &p::Message, now: u64, lending: &U, whole: &U) -> Result<(), (&'static str, bool)> {
        let f = model::fid(m);
        form::judge(m, &At { net: NET, unix: now, pro: false }).map_err(|e| (e, true))?;
        if !self.custody.contains_key(&f) {
            return Err(("unknown account", true));
        }
        // everything but the key's own freshness: that is settled last
        let late = match model::body(m) {
            Body::LendStorageBody(b) => {
                let mut tried = self.clone();
                tried.signed(m, now).map_err(|e| (e, true))?;
                if lending[b.unit_type as usize] < b.num_units + 1 {
                    return Err(("not enough to lend", true));
                }
                match self.lends.get(&(f, b.to_fid)) {
                    Some(o) if model::beats(m, o) != std::cmp::Ordering::Greater => Some("an older loan"),
                    _ => None,
                }
            }
            Body::KeyAddBody(b) => return self.key_add(m, b, now).map_err(|e| (e, false)),
            Body::KeyRemoveBody(b) => return self.key_remove(m, b, now).map_err(|e| (e, false)),
            Body::VerificationAddAddressBody(_) | Body::VerificationRemoveBody(_) => {
                let mut tried = self.clone();
                tried.signed(m, now).map_err(|e| (e, true))?;
                let max = quota(*whole);
                let live = self.verifs.iter().filter(|x| x.0 .0 == f && is_add(x.1)).count() as u64;
                let dead = self.verifs.iter().filter(|x| x.0 .0 == f && !is_add(x.1)).count() as u64;
                let tombs = if max == 0 { 0 } else { max.max(256) };
                let rows = max + tombs;
                let old = self.verifs.get(&(f, verif_addr(m)));
                let room = match (is_add(m), old.map(is_add)) {
                    (true, _) if max == 0 => false,
                    (true, Some(true)) => true,
                    (true, Some(false)) => live < max,
                    (true, None) => live < max && live + dead < rows,
                    (false, Some(_)) => true,
                    (false, None) => dead < tombs && live + dead < rows,
                };
                if !room {
                    return Err(("no room", true));
                }
                match old {
                    Some(o) if model::beats(m, o) != std::cmp::Ordering::Greater => Some("superseded"),
                    _ => None,
                }
            }
            Body::ChannelUpdateBody(b) => {
                self.channel(m, &b.channel_id, now).map_err(|e| (e, true))?;
                self.chans.get(&b.channel_id).and_then(|c| c.update.as_ref()).filter(|o| o.hash == m.hash).map(|_| "again")
            }
            Body::ChannelPinBody(b) => {
                self.channel(m, &b.channel_id, now).map_err(|e| (e, true))?;
                self.chans.get(&b.channel_id).and_then(|c| c.pin.as_ref()).filter(|o| o.hash == m.hash).map(|_| "again")
            }
            Body::ChannelMemberBody(b) => {
                self.channel(m, &b.channel_id, now).map_err(|e| (e, true))?;
                self.chans.get(&b.channel_id).and_then(|c| c.members.get(&b.fid)).filter(|o| o.hash == m.hash).map(|_| "again")
            }
            Body::ChannelModerateBody(b) => {
                self.channel(m, &b.channel_id, now).map_err(|e| (e, true))?;
                self.chans.get(&b.channel_id).and_then(|c| c.mods.get(&b.cast_hash)).filter(|o| o.hash == m.hash).map(|_| "again")
            }
            _ => return Err(("not shard 0's", true)),
        };
        self.signed(m, now).map_err(|e| (e, true))?;
        match late {
            Some(e) => Err((e, false)),
            None => Ok(()),
        }
    }
    fn key_add(&self, m: &p::Message, b: &p::KeyAddBody, now: u64) -> Result<(), &'static str> {
        let f = model::fid(m);
        let ts = model::ts(m) as u64;
        let (request_fid, asker, sig, until) = gen::key_request(&b.metadata).ok_or("metadata")?;
        if until < ts {
            return Err("request expired");
        }
        if gen::recover(&gen::key_request_hash(request_fid, &b.key, until), &sig).as_ref() != Some(&asker) {
            return Err("request signature");
        }
        if self.custody.get(&request_fid).map(|x| &x.0) != Some(&asker) {
            return Err("not the application's custody");
        }
        if self.signer_on_chain(f, &b.key) {
            return Err("already a signer on chain");
        }
        if (b.deadline as u64) < now - gen::FC_EPOCH {
            return Err("custody's deadline passed");
        }
        let who = gen::recover(&gen::key_add_hash(f, &b.key, b.key_type, &b.scopes, b.ttl, b.nonce, b.deadline), &b.custody_signature);
        if who.is_none() || self.custody.get(&f).map(|x| &x.0) != who.as_ref() {
            return Err("not custody's signature");
        }
        if b.nonce <= self.user_nonce.get(&f).copied().unwrap_or(0) {
            return Err("nonce");
        }
        if let Some(o) = self.owner.get(&b.key) {
            if *o != f {
                return Err("another account's key");
            }
            if self.keys[&(f, b.key.clone())].request_fid != request_fid {
                return Err("another application's key");
            }
        }
        Ok(())
    }
    fn key_remove(&self, m: &p::Message, b: &p::KeyRemoveBody, now: u64) -> Result<(), &'static str> {
        let f = model::fid(m);
        let rec = self.keys.get(&(f, b.key.clone())).ok_or("no such key")?;
        if (b.deadline as u64) < now - gen::FC_EPOCH {
            return Err("deadline passed");
        }
        if b.signature_type == 2 {
            if m.signer != b.key {
                return Err("not the key itself");
            }
            if b.nonce <= self.app_nonce.get(&rec.request_fid).copied().unwrap_or(0) {
                return Err("nonce");
            }
        } else {
            let who = gen::recover(&gen::key_remove_hash(f, &b.key, b.nonce, b.deadline), &b.signature);
            if who.is_none() || self.custody.get(&f).map(|x| &x.0) != who.as_ref() {
                return Err("not custody's signature");
            }
            if b.nonce <= self.user_nonce.get(&f).copied().unwrap_or(0) {
                return Err("nonce");
            }
        }
        Ok(())
    }
    fn channel(&self, m: &p::Message, id: &[u8], now: u64) -> Result<(), &'static str> {
        let f = model::fid(m);
        self.clone().signed(m, now)?;
        let reg = self.regs.get(id).ok_or("unknown channel")?;
        let owner = self.speaks_for(&reg.owner);
        let none = Chan::default();
        let c = self.chans.get(id).unwrap_or(&none);
        let at = |x: u64| c.members.get(&x).map(state);
        let own = owner == Some(f);
        let moder = !own && at(f) == Some(Mem::Moderator);
        if owner.is_none() && !matches!(model::body(m), Body::ChannelMemberBody(b) if b.action == 2 && b.fid == f) {
            return Err("nobody speaks for the owner");
        }
        let ok = match model::body(m) {
            Body::ChannelUpdateBody(_) => own,
            Body::ChannelPinBody(_) | Body::ChannelModerateBody(_) => own || moder,
            Body::ChannelMemberBody(b) => {
                let me = b.fid == f;
                let t = at(b.fid);
                let open = matches!(c.update.as_ref().map(model::body), Some(Body::ChannelUpdateBody(u)) if u.membership_mode == Some(1));
                match b.action {
                    _ if b.action == 5 && owner == Some(b.fid) => false,
                    _ if b.action != 6 && t == Some(Mem::Banned) => false,
                    1 => matches!(t, None | Some(Mem::Removed)) && (own || moder || me && open),
                    2 => t == Some(Mem::Member) && (own || moder || me) || t == Some(Mem::Moderator) && me,
                    3 => t != Some(Mem::Moderator) && own && c.members.values().filter(|x| state(x) == Mem::Moderator).count() < 10,
                    4 => t == Some(Mem::Moderator) && own,
                    5 => own || moder && t != Some(Mem::Moderator),
                    6 => t == Some(Mem::Banned) && (own || moder),
                    _ => false,
                }
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err("no authority")
        }
    }
}

fn property(m: &p::Message) -> &'static str {
    match model::body(m) {
        Body::LendStorageBody(_) => "B11",
        Body::KeyAddBody(_) | Body::KeyRemoveBody(_) => "B12",
        Body::VerificationAddAddressBody(_) | Body::VerificationRemoveBody(_) => "B14",
        Body::CastAddBody(_) | Body::CastRemoveBody(_) => "B12",
        _ => "B13",
    }
}
fn brief(m: &p::Message) -> String {
    let d = m.data.as_ref().unwrap();
    let b = match model::body(m) {
        Body::KeyAddBody(b) => format!("adds key {} scopes {:?} ttl {} nonce {} deadline {} for {:?}", short(&b.key), b.scopes, b.ttl, b.nonce, b.deadline, gen::key_request(&b.metadata).map(|x| (x.0, x.3))),
        Body::KeyRemoveBody(b) => format!("removes key {} kind {} nonce {} deadline {}", short(&b.key), b.signature_type, b.nonce, b.deadline),
        Body::LendStorageBody(b) => format!("lends {} of kind {} to {}", b.num_units, b.unit_type, b.to_fid),
        Body::ChannelMemberBody(b) => format!("channel {} action {} on {}", short(&b.channel_id), b.action, b.fid),
        Body::ChannelUpdateBody(b) => format!("channel {} update, membership {:?}", short(&b.channel_id), b.membership_mode),
        Body::ChannelPinBody(b) => format!("channel {} pins {}", short(&b.channel_id), short(&b.cast_hash)),
        Body::ChannelModerateBody(b) => format!("channel {} moderates {} {}", short(&b.channel_id), short(&b.cast_hash), b.action),
        Body::VerificationAddAddressBody(b) => format!("verifies {}", short(&b.address)),
        Body::VerificationRemoveBody(b) => format!("unverifies {}", short(&b.address)),
        _ => format!("{:?}", d.r#type()),
    };
    format!("[fid {} {} ts {} signer {}: {b}]", d.fid, short(&m.hash), d.timestamp, short(&m.signer))
}

// ------------------------------------------------------------------ the run

/// What shard 0's block should report.
#[derive(Clone, Debug)]
enum Want {
    Message(p::Message),
    Chain(p::OnChainEvent),
}
struct Run {
    k: Knobs,
    c: Cluster,
    /// what each shard should hold
    m: Vec<Copy>,
    pools: Vec<VecDeque<MempoolMessage>>,
    held: Vec<Option<Vec<MempoolMessage>>>,
    elapsed: u64,
    dead: bool,
    /// key messages already counted as taken at a data shard
    seen: BTreeMap<u32, u64>,
}

impl Run {
    fn up(&self) -> Vec<usize> {
        (0..self.c.nodes.len()).filter(|x| self.c.nodes[*x].up).collect()
    }
    fn violate(&mut self, sim: &mut Sim, p: &str, rule: &str, d: String) {
        sim.violate(p, rule, d);
        self.dead = true;
    }
    fn step(&mut self, sim: &mut Sim, i: usize, op: Op) {
        match op {
            Op::Start { node } => {
                if node < self.c.nodes.len() && !self.c.nodes[node].up {
                    self.c.start(sim, node);
                    self.catch_up(sim, node);
                }
            }
            Op::Stop { node } => {
                if self.c.nodes.get(node).is_some_and(|x| x.up) {
                    sim.count("fault.process_killed");
                    sim.log(format!("{i} n{node} killed"));
                    self.c.down(node);
                }
            }
            Op::Arm { node, writes, crash } => {
                let dir = self.c.nodes[node].dir.clone();
                let kind = if crash { disk::Action::Crash } else { disk::Action::Fail };
                self.c.armed.lock().unwrap().at.insert(dir, (kind, writes as u64));
            }
            Op::Clock { ms } => {
                self.elapsed += ms;
                crate::sys::set_elapsed_ms(self.elapsed);
            }
            Op::Skew { node, ms } => {
                sim.count("fault.clock_skew");
                self.c.nodes[node].skew = ms;
            }
            Op::Ev { e, to } => {
                let e: p::OnChainEvent = dec(&e);
                sim.log(format!("{i} chain {} to {to:?}", brief_chain(&e)));
                for s in to {
                    let m = MempoolMessage::OnchainEvent(e.clone());
                    match &mut self.held[s as usize] {
                        Some(h) => {
                            sim.count("fault.chain_event_delayed");
                            h.push(m)
                        }
                        None => self.pools[s as usize].push_back(m),
                    }
                }
            }
            Op::Hold { shard, on } => {
                let s = shard as usize;
                if on {
                    self.held[s].get_or_insert(vec![]);
                } else if let Some(v) = self.held[s].take() {
                    self.pools[s].extend(v);
                }
            }
            Op::Msg { m } => {
                let m: p::Message = dec(&m);
                let s = if of_shard_zero(&m) { 0 } else { home(m.fid(), self.k.shards) as usize };
                sim.log(format!("{i} {} to s{s}", brief(&m)));
                self.pools[s].push_back(MempoolMessage::UserMessage(m));
            }
            Op::Block { by, max, tamper } => self.block(sim, i, by, max, &tamper),
            Op::Chunk { shard, by, events, how, max } => self.chunk(sim, i, shard, by, events, &how, max),
            Op::Try { node, m } => self.try_it(sim, i, node, dec(&m)),
            Op::Audit { node } => self.audit(sim, node),
        }
    }
    fn catch_up(&mut self, sim: &mut Sim, n: usize) {
        for s in 0..=self.k.shards {
            while self.c.nodes[n].up && !self.c.at_head(n, s) {
                if self.c.apply(sim, n, s, "replay").is_none() {
                    break;
                }
            }
        }
    }
    fn now(&self, s: u32) -> u64 {
        self.c.header_ts(s) + gen::FC_EPOCH
    }
    fn tick(&mut self) {
        self.elapsed += 1000;
        crate::sys::set_elapsed_ms(self.elapsed);
    }

    // -------------------------------------------------------- shard 0

    fn block(&mut self, sim: &mut Sim, i: usize, by: usize, max: usize, tamper: &[u32]) {
        if !self.c.nodes.get(by).is_some_and(|n| n.up) {
            return;
        }
        self.catch_up(sim, by);
        if !self.c.nodes[by].up {
            return;
        }
        self.tick();
        let n = max.min(self.pools[0].len());
        let msgs: Vec<MempoolMessage> = self.pools[0].iter().take(n).cloned().collect();
        let sc = match self.c.propose_block(sim, by, msgs.clone()) {
            Some(s) => s,
            None => return,
        };
        let b = self.c.block_of(&sc);
        let ts = b.header.as_ref().unwrap().timestamp;
        let now = ts + gen::FC_EPOCH;
        sim.log(format!("{i} n{by} proposes block {} of {n} at {now}", self.c.chains[0].len() + 1));
        sim.count("op.block");
        // what the block ought to be
        let before = self.m[0].clone();
        let mut m0 = before.clone();
        let want = self.expect(sim, &mut m0, &before, &b, now);
        self.included(sim, &before, &b, &msgs, now);
        self.reported(sim, &want, &b);
        if self.dead {
            return;
        }
        // a proposer that lies about it
        for t in tamper {
            if let Some((x, what)) = self.lie(&b, *t) {
                for n in self.up() {
                    self.catch_up(sim, n);
                    if !self.c.at_head(n, 0) {
                        continue;
                    }
                    if let Some(ok) = self.c.validate_block(sim, n, &x) {
                        sim.count("fault.tampered_events");
                        sim.count("oracle.A07");
                        if ok {
                            self.violate(sim, "A07", "false_events_accepted", format!("node {n} votes for block {} whose events the proposer falsified ({what})", self.c.chains[0].len() + 1));
                            return;
                        }
                    }
                }
            }
        }
        for n in self.up() {
            self.catch_up(sim, n);
            if !self.c.at_head(n, 0) {
                continue;
            }
            if let Some(false) = self.c.validate_block(sim, n, &b) {
                self.violate(sim, "A07", "honest_refused", format!("node {n} refuses the block node {by} proposed honestly"));
                return;
            }
        }
        self.c.decide_block(b);
        self.pools[0].drain(..n);
        self.m[0] = m0;
        for n in self.up() {
            if self.c.height(n, 0) as usize + 1 == self.c.chains[0].len() {
                self.c.apply(sim, n, 0, "live");
            }
        }
    }
    /// Run the model over a block of shard 0.
    fn expect(&mut self, sim: &mut Sim, m0: &mut Copy, before: &Copy, b: &p::Block, now: u64) -> Vec<Want> {
        let mut out = vec![];
        for t in &b.transactions {
            let mut ev: Vec<&p::OnChainEvent> = t.system_messages.iter().filter_map(|v| v.on_chain_event.as_ref()).collect();
            ev.sort_by_key(|e| (e.block_number, e.log_index));
            for e in ev {
                if m0.chain_event(e) && e.r#type() == p::OnChainEventType::EventTypeChannelRegister {
                    out.push(Want::Chain(e.clone()));
                }
            }
            let own = m0.own(t.fid, now);
            let mut lending = sub(own, before.lent(t.fid));
            let mut whole = add(lending, before.borrowed(t.fid));
            for m in &t.user_messages {
                sim.count(&format!("oracle.{}", property(m)));
                match m0.verdict(m, now, &lending, &whole) {
                    Ok(()) => {
                        sim.count(&format!("reach.taken.{:?}", m.data.as_ref().unwrap().r#type()));
                        let back = m0.take(m);
                        for u in [&mut lending, &mut whole] {
                            *u = add(sub(*u, lent(m)), back);
                        }
                        out.push(Want::Message(m.clone()));
                    }
                    Err((why, early)) => {
                        sim.count(&format!("reach.refused.{}.{why}", property(m)));
                        if sim.verbose {
                            eprintln!("           model refuses {} ({why}, {early})", brief(m));
                        }
                    }
                }
            }
        }
        out
    }
    /// Nothing that could be judged was left out, and nothing was slipped in.
    fn included(&mut self, sim: &mut Sim, before: &Copy, b: &p::Block, msgs: &[MempoolMessage], now: u64) {
        let mut got: BTreeMap<Vec<u8>, i64> = BTreeMap::new();
        for t in &b.transactions {
            for m in &t.user_messages {
                *got.entry(m.hash.clone()).or_default() += 1;
            }
        }
        for x in msgs {
            let m = match x {
                MempoolMessage::UserMessage(m) => m,
                _ => continue,
            };
            let mut st = before.clone();
            for y in msgs {
                if let MempoolMessage::OnchainEvent(e) = y {
                    if e.fid == m.fid() {
                        st.chain_event(e);
                    }
                }
            }
            let active = st.active(m.fid(), now);
            let g = got.entry(m.hash.clone()).or_default();
            if active {
                *g -= 1;
                if *g < 0 {
                    let p = property(m);
                    self.violate(sim, p, "left_out", format!("{} has storage, yet the block leaves its message out: {}", m.fid(), brief(m)));
                    return;
                }
            }
        }
        if let Some((h, _)) = got.iter().find(|x| *x.1 > 0) {
            let m = b.transactions.iter().flat_map(|t| &t.user_messages).find(|m| m.hash == *h).unwrap().clone();
            let p = property(&m);
            self.violate(sim, p, "no_storage", format!("{} has no storage, yet the block takes its message: {}", m.fid(), brief(&m)));
        }
    }
    /// The block's events are the ones its transactions call for, numbered without a gap.
    fn reported(&mut self, sim: &mut Sim, want: &[Want], b: &p::Block) {
        use p::block_event_data::Body as E;
        let height = self.c.chains[0].len() as u64 + 1;
        let mut got = vec![];
        let mut beats = 0;
        for e in &b.events {
            match e.data.as_ref().and_then(|d| d.body.as_ref()) {
                Some(E::MergeMessageEventBody(x)) => got.push(Want::Message(x.message.clone().unwrap())),
                Some(E::MergeOnChainEventEventBody(x)) => got.push(Want::Chain(x.on_chain_event.clone().unwrap())),
                Some(E::HeartbeatEventBody(_)) => beats += 1,
                None => {}
            }
        }
        let id = |w: &Want| match w {
            Want::Message(m) => m.encode_to_vec(),
            Want::Chain(e) => e.encode_to_vec(),
        };
        let (wi, gi): (Vec<_>, Vec<_>) = (want.iter().map(id).collect(), got.iter().map(id).collect());
        if wi != gi {
            let missing = want.iter().find(|w| !gi.contains(&id(w)));
            let extra = got.iter().find(|w| !wi.contains(&id(w)));
            match (extra, missing) {
                (Some(Want::Message(m)), _) => {
                    let m = m.clone();
                    let p = property(&m);
                    let mut lending = [0; 3];
                    let why = {
                        let now = b.header.as_ref().unwrap().timestamp + gen::FC_EPOCH;
                        let mut c = self.m[0].clone();
                        lending = add(lending, sub(c.own(m.fid(), now), c.lent(m.fid())));
                        format!("{:?}", c.verdict(&m, now, &lending, &add(lending, self.m[0].borrowed(m.fid()))))
                    };
                    self.violate(sim, p, "wrongly_taken", format!("block {height} takes {}; seen from its start: {why}, spare units {lending:?}", brief(&m)));
                }
                (_, Some(Want::Message(m))) => {
                    let m = m.clone();
                    let p = property(&m);
                    self.violate(sim, p, "wrongly_refused", format!("block {height} refuses {}", brief(&m)));
                }
                _ => self.violate(sim, "A07", "wrong_events", format!("block {height} reports {} events where {} are due", got.len(), want.len())),
            }
            return;
        }
        sim.count("oracle.A07");
        let due = (height % 5 == 0) as usize;
        if beats != due {
            return self.violate(sim, "A07", "heartbeat", format!("block {height} has {beats} heartbeats"));
        }
        let first = self.c.block_events.last().map_or(0, |e| e.data.as_ref().unwrap().seqnum) + 1;
        let h = b.header.as_ref().unwrap();
        for (i, e) in b.events.iter().enumerate() {
            let d = e.data.as_ref().unwrap();
            let right = d.seqnum == first + i as u64 && d.event_index == i as u64 && d.block_number == height && d.block_timestamp == h.timestamp && e.hash == blake3::hash(&d.encode_to_vec()).as_bytes();
            if !right {
                return self.violate(sim, "A07", "misnumbered", format!("event {i} of block {height} says seqnum {} index {} block {} time {}; {} was due", d.seqnum, d.event_index, d.block_number, d.block_timestamp, first + i as u64));
            }
        }
        let mut hh = blake3::Hasher::new();
        for e in &b.events {
            hh.update(&e.hash);
        }
        let eh = if b.events.is_empty() { vec![] } else { hh.finalize().as_bytes().to_vec() };
        if eh != h.events_hash {
            self.violate(sim, "A07", "events_hash", format!("block {height} does not commit to its own events"));
        }
    }
    /// The same block with its events falsified.
    fn lie(&self, b: &p::Block, how: u32) -> Option<(p::Block, &'static str)> {
        let mut x = b.clone();
        let rehash = |e: &mut p::BlockEvent| e.hash = blake3::hash(&e.data.as_ref().unwrap().encode_to_vec()).as_bytes().to_vec();
        let n = x.events.len();
        let first = self.c.block_events.last().map_or(0, |e| e.data.as_ref().unwrap().seqnum) + 1;
        let height = self.c.chains[0].len() as u64 + 1;
        let beat = |seq: u64, i: u64| {
            let mut e = p::BlockEvent {
                hash: vec![],
                data: Some(p::BlockEventData {
                    seqnum: seq,
                    r#type: p::BlockEventType::Heartbeat as i32,
                    block_number: height,
                    event_index: i,
                    block_timestamp: b.header.as_ref().unwrap().timestamp,
                    body: Some(p::block_event_data::Body::HeartbeatEventBody(p::HeartbeatEventBody {})),
                }),
            };
            rehash(&mut e);
            e
        };
        let what = match how {
            0 if n > 0 => {
                x.events.pop();
                "the last one dropped"
            }
            1 if n > 0 => {
                x.events.remove(0);
                "the first one dropped"
            }
            2 if n > 0 => {
                let e = x.events[0].clone();
                x.events.push(e);
                "one repeated"
            }
            3 if n > 0 => {
                x.events[0].data.as_mut().unwrap().seqnum += 1;
                "a seqnum altered under its hash"
            }
            4 if n > 0 => {
                let d = x.events[n - 1].data.as_mut().unwrap();
                match &mut d.body {
                    Some(p::block_event_data::Body::MergeMessageEventBody(m)) => m.message.as_mut().unwrap().data.as_mut().unwrap().fid += 1,
                    _ => d.block_timestamp += 1,
                }
                "content altered under its hash"
            }
            5 if n > 1 => {
                x.events.swap(0, 1);
                "two swapped"
            }
            6 => {
                x.events.push(beat(first + n as u64, n as u64));
                "a heartbeat added"
            }
            7 => {
                x.events.push(beat(first + n as u64, n as u64));
                "a heartbeat added and committed to"
            }
            8 if n > 0 => {
                x.events[n - 1].data.as_mut().unwrap().block_timestamp += 1;
                rehash(&mut x.events[n - 1]);
                "a time altered and committed to"
            }
            9 if n > 0 => {
                x.events[0].hash[5] ^= 1;
                "a hash altered"
            }
            10 if n > 0 => {
                x.events.clear();
                "all dropped, and committed to"
            }
            11 if n > 0 => {
                x.events[0].data = None;
                "content withheld"
            }
            _ => return None,
        };
        if matches!(how, 7 | 8 | 10) {
            let mut hh = blake3::Hasher::new();
            for e in &x.events {
                hh.update(&e.hash);
            }
            x.header.as_mut().unwrap().events_hash = if x.events.is_empty() { vec![] } else { hh.finalize().as_bytes().to_vec() };
            x.hash = block_hash(&x.header.as_ref().unwrap().encode_to_vec());
        }
        Some((x, what))
    }

    // -------------------------------------------------------- data shards

    fn chunk(&mut self, sim: &mut Sim, i: usize, s: u32, by: usize, events: usize, how: &str, max: usize) {
        if !self.c.nodes.get(by).is_some_and(|n| n.up) {
            return;
        }
        self.catch_up(sim, by);
        if !self.c.nodes[by].up {
            return;
        }
        self.tick();
        let from = self.m[s as usize].seq as usize;
        let mut ev: Vec<p::BlockEvent> = self.c.block_events[from.min(self.c.block_events.len())..].iter().take(events).cloned().collect();
        match how {
            "dup" if !ev.is_empty() => {
                sim.count("fault.event_repeated");
                let e = ev[0].clone();
                ev.push(e);
                if from > 0 {
                    ev.insert(0, self.c.block_events[from - 1].clone());
                }
            }
            "gap" if ev.len() > 1 => {
                sim.count("fault.event_lost");
                ev.remove(ev.len() / 2);
            }
            "reorder" if ev.len() > 1 => {
                sim.count("fault.event_reordered");
                ev.reverse();
            }
            _ => {}
        }
        let n = max.min(self.pools[s as usize].len());
        let mut msgs: Vec<MempoolMessage> = ev.iter().map(|e| MempoolMessage::BlockEvent { for_shard: s, message: e.clone() }).collect();
        msgs.extend(self.pools[s as usize].iter().take(n).cloned());
        let sc = match self.c.propose(sim, by, s, msgs) {
            Some(x) => x,
            None => return,
        };
        let chunk = self.c.chunk_of(s, &sc);
        sim.log(format!("{i} n{by} proposes in s{s}: {} events after {from} ({how}), {n} others", ev.len()));
        sim.count("op.chunk");
        for n in self.up() {
            self.catch_up(sim, n);
            if self.c.at_head(n, s) {
                if let Some(false) = self.c.validate(sim, n, &chunk) {
                    self.violate(sim, "A07", "honest_refused", format!("node {n} refuses the chunk node {by} proposed honestly in shard {s}"));
                    return;
                }
            }
        }
        self.c.decide(chunk.clone());
        self.pools[s as usize].drain(..n);
        let mut evs = None;
        for n in self.up() {
            if self.c.height(n, s) as usize + 1 == self.c.chains[s as usize].len() {
                if let Some(e) = self.c.apply(sim, n, s, "live") {
                    evs.get_or_insert(e);
                }
            }
        }
        self.effects(sim, s, &chunk, evs);
    }
    fn effects(&mut self, sim: &mut Sim, s: u32, c: &p::ShardChunk, evs: Option<Vec<p::HubEvent>>) {
        use p::hub_event::Body as H;
        let now = c.header.as_ref().unwrap().timestamp + gen::FC_EPOCH;
        // the users' own loans count from the block after
        let lends = self.m[s as usize].lends.clone();
        let mut bad = None;
        for t in &c.transactions {
            let m = &mut self.m[s as usize];
            let mut ev: Vec<&p::OnChainEvent> = t.system_messages.iter().filter_map(|v| v.on_chain_event.as_ref()).collect();
            ev.sort_by_key(|e| (e.block_number, e.log_index));
            for e in ev {
                m.chain_event(e);
            }
            for v in &t.system_messages {
                if let Some(e) = &v.block_event {
                    m.event(e);
                }
            }
            let _ = &lends;
            for u in model::sort_users(&t.user_messages) {
                if of_shard_zero(&u) {
                    continue;
                }
                let mut why = form::judge(&u, &At { net: NET, unix: now, pro: false });
                if why.is_ok() && !m.custody.contains_key(&u.fid()) {
                    why = Err("unknown account");
                }
                if why.is_ok() {
                    why = m.signed(&u, now);
                }
                sim.count("oracle.B12");
                sim.count(&format!("reach.cast.{}", why.err().unwrap_or("taken")));
                if let Some(evs) = &evs {
                    let taken = evs.iter().any(|e| matches!(&e.body, Some(H::MergeMessageBody(b)) if b.message.as_ref().is_some_and(|x| x.hash == u.hash)));
                    let refused = evs.iter().find_map(|e| match &e.body {
                        Some(H::MergeFailure(b)) if b.message.as_ref().is_some_and(|x| x.hash == u.hash) => Some(b.reason.clone()),
                        _ => None,
                    });
                    match (why, taken, refused) {
                        (Err(w), true, _) => bad = Some(("wrongly_taken", format!("shard {s} takes {} though {w}", brief(&u)))),
                        (Ok(()), false, Some(r)) if !r.contains("duplicate") && !r.contains("already") => bad = Some(("wrongly_refused", format!("shard {s} refuses {} ({r})", brief(&u)))),
                        _ => {}
                    }
                }
            }
        }
        let replaced: BTreeSet<Vec<u8>> = evs
            .iter()
            .flatten()
            .filter_map(|e| match &e.body {
                Some(H::MergeMessageBody(b)) => Some(b.deleted_messages.iter().map(|x| x.hash.clone())),
                _ => None,
            })
            .flatten()
            .collect();
        let mut twice = None;
        for e in evs.iter().flatten() {
            let m = &mut self.m[s as usize];
            match &e.body {
                Some(H::PruneMessageBody(b)) => {
                    let x = b.message.as_ref().unwrap();
                    if replaced.contains(&x.hash) {
                        twice = Some(format!("shard {s}: {} was replaced and then pruned in the same block", brief(x)));
                    }
                    m.gone.insert(b.message.as_ref().unwrap().hash.clone());
                }
                Some(H::RevokeMessageBody(b)) => {
                    m.gone.insert(b.message.as_ref().unwrap().hash.clone());
                }
                _ => {}
            }
        }
        if let Some((r, d)) = bad {
            return self.violate(sim, "B12", r, d);
        }
        if let Some(d) = twice {
            return self.violate(sim, "B14", "pruned_after_replaced", d);
        }
        if let Some(evs) = &evs {
            let said = evs.iter().find_map(|e| match &e.body {
                Some(H::BlockConfirmedBody(b)) => Some(b.max_block_event_seqnum),
                _ => None,
            });
            let due = self.m[s as usize].seq;
            sim.count("oracle.A07");
            if said != Some(due) {
                self.violate(sim, "A07", "out_of_turn", format!("shard {s} says it is at event {said:?} of shard 0 after block {}, and {due} is the last that came in turn", self.c.chains[s as usize].len()));
            }
            let _ = self.seen.insert(s, due);
        }
    }

    // -------------------------------------------------------- questions

    fn try_it(&mut self, sim: &mut Sim, i: usize, n: usize, m: p::Message) {
        if !self.c.nodes.get(n).is_some_and(|x| x.up) || !of_shard_zero(&m) {
            return;
        }
        self.catch_up(sim, n);
        if !self.c.at_head(n, 0) {
            return;
        }
        let root = self.c.block(n).trie_root_hash();
        let dump = self.c.dump(n, 0);
        let got = match self.c.on(sim, n, "simulate", |c| c.block(n).simulate_message(&m)) {
            Ran::Done(g) => g,
            Ran::Down => return,
        };
        sim.log(format!("{i} try n{n} {}: {got:?}", brief(&m)));
        sim.count("op.try");
        let p = property(&m);
        if self.c.block(n).trie_root_hash() != root || self.c.dump(n, 0) != dump {
            return self.violate(sim, p, "trial_left_a_trace", format!("asking node {n} about {} changed its state", brief(&m)));
        }
        let now = ((crate::sys::true_unix_ms() + self.c.nodes[n].skew) / 1000) as u64;
        let mut st = self.m[0].clone();
        let f = m.fid();
        let lending = sub(st.own(f, now), st.lent(f));
        let whole = add(lending, st.borrowed(f));
        let v = st.verdict(&m, now, &lending, &whole);
        sim.count(&format!("oracle.{p}"));
        match (v, got.is_ok(), p) {
            (Ok(()), false, _) => self.violate(sim, p, "trial_refuses", format!("node {n} says it would refuse ({got:?}) {}", brief(&m))),
            (Err((w, early)), true, _) if early || p == "B13" || p == "B14" => self.violate(sim, p, "trial_admits", format!("node {n} says it would take {} though {w}", brief(&m))),
            _ => {}
        }
    }
    fn finish(&mut self, sim: &mut Sim) {
        for n in 0..self.c.nodes.len() {
            let dir = self.c.nodes[n].dir.clone();
            self.c.armed.lock().unwrap().at.remove(&dir);
            if !self.c.nodes[n].up {
                self.c.start(sim, n);
            }
            self.catch_up(sim, n);
        }
        for s in 0..=self.k.shards {
            if let Some(v) = self.held[s as usize].take() {
                self.pools[s as usize].extend(v);
            }
        }
        let i = 9999;
        self.block(sim, i, 0, 999, &[]);
        for s in 1..=self.k.shards {
            for _ in 0..200 {
                if self.dead {
                    return;
                }
                let before = self.m[s as usize].seq;
                if before as usize == self.c.block_events.len() && self.pools[s as usize].is_empty() {
                    break;
                }
                self.chunk(sim, i, s, 0, 40, "ok", 999);
                if !self.dead && self.m[s as usize].seq == before && (before as usize) < self.c.block_events.len() {
                    return self.violate(sim, "A07", "stuck", format!("shard {s} no longer takes shard 0's events after {before}"));
                }
            }
        }
        for n in 0..self.c.nodes.len() {
            if !self.dead {
                self.audit(sim, n);
            }
        }
    }
    /// Everything a node would answer about these, against what it should hold.
    fn audit(&mut self, sim: &mut Sim, n: usize) {
        if !self.c.nodes.get(n).is_some_and(|x| x.up) {
            return;
        }
        self.catch_up(sim, n);
        for s in 0..=self.k.shards {
            if !self.c.nodes[n].up || !self.c.at_head(n, s) {
                return;
            }
            sim.count("op.audit");
            let want = self.m[s as usize].clone();
            let fids: Vec<u64> = self.k.fids.iter().copied().chain([1, 2, 3, 4, 5]).collect();
            let view = self.view(n, s);
            let bad = view.compare(&want, s, &fids, sim).or_else(|| self.limits(n, s, &want, &fids, sim));
            if let Some((p, r, d)) = bad {
                return self.violate(sim, p, r, format!("node {n} shard {s} at event {}: {d}", want.seq));
            }
            let mut r = Rng::new(want.seq ^ (n as u64) << 32 ^ (s as u64) << 40);
            if let Some((p, r, d)) = view.listings(&want, s, &fids, sim, &mut r) {
                return self.violate(sim, p, r, format!("node {n} shard {s} at event {}: {d}", want.seq));
            }
        }
    }
    /// What a data shard answers of an account's storage, by what it was told of rents and loans.
    fn limits(&mut self, n: usize, s: u32, w: &Copy, fids: &[u64], sim: &mut Sim) -> Bad {
        if s == 0 {
            return None;
        }
        let now = (crate::sys::true_unix_ms() / 1000) as u64;
        let st = self.c.shard(n, s).get_stores();
        for f in fids {
            sim.count("oracle.limits");
            let got = match st.get_storage_limits(*f) {
                Ok(g) => g,
                Err(e) => return Some(("B11", "limits_answer", format!("no answer about the storage of {f}: {e:?}"))),
            };
            let (own, lent, lend) = (w.own(*f, now), w.lent(*f), w.borrowed(*f));
            let left: Vec<u64> = (0..3).map(|k| own[k].saturating_sub(lent[k]) + lend[k]).collect();
            let mut said: Vec<_> = got.unit_details.iter().map(|d| (d.unit_type as usize, [d.unit_size, d.purchased_unit_size, d.borrowed_unit_size, d.lent_unit_size].map(|x| x as u64))).collect();
            said.sort();
            let want: Vec<_> = (0..3).map(|k| (k, [left[k], own[k], lend[k], lent[k]])).collect();
            if said != want || got.units as u64 != left.iter().sum::<u64>() {
                return Some(("B11", "limits_answer", format!("{f} has {} units, {said:?} (left, bought, borrowed, lent) by kind; by what was decided {want:?}", got.units)));
            }
            for l in &got.limits {
                let units = if l.store_type() == p::StoreType::StorageLends { own.to_vec() } else { left.clone() };
                use p::StoreType as S;
                let each: [u64; 3] = match l.store_type() {
                    S::Casts => [5000, 2000, 100],
                    S::Links | S::Reactions => [2500, 1000, 200],
                    S::UserData => [50, 50, 25],
                    S::Verifications => [25, 25, 5],
                    S::UsernameProofs => [5, 5, 2],
                    S::StorageLends => [1, 1, 1],
                    S::None => [0; 3],
                };
                let max: u64 = (0..3).map(|k| each[k] * units[k]).sum();
                let used = (l.store_type() == p::StoreType::StorageLends).then(|| w.lends.keys().filter(|k| k.0 == *f).count() as u64);
                if l.limit != max || used.is_some_and(|u| u > l.used) {
                    return Some(("B11", "limits_answer", format!("{f}: {:?} {} of {}; by what was decided {used:?} of {max}", l.store_type(), l.used, l.limit)));
                }
            }
        }
        None
    }
    fn view(&mut self, n: usize, s: u32) -> View {
        if s == 0 {
            let st = self.c.block(n).stores();
            View { db: st.db.clone(), lend: st.storage_lend_store.clone(), verif: st.verification_store.clone(), upd: st.channel_update_store.clone(), mem: st.channel_member_store.clone(), pin: st.channel_pin_store.clone(), modr: st.channel_moderate_store.clone(), chain: st.onchain_event_store.clone() }
        } else {
            let st = self.c.shard(n, s).get_stores();
            View { db: st.db.clone(), lend: st.storage_lend_store.clone(), verif: st.verification_store.clone(), upd: st.channel_update_store.clone(), mem: st.channel_member_store.clone(), pin: st.channel_pin_store.clone(), modr: st.channel_moderate_store.clone(), chain: st.onchain_event_store.clone() }
        }
    }
}
struct View {
    db: std::sync::Arc<snapchain::storage::db::RocksDB>,
    lend: acct::Store<acct::StorageLendStoreDef>,
    verif: acct::Store<acct::VerificationStoreDef>,
    upd: acct::Store<acct::ChannelUpdateStoreDef>,
    mem: acct::Store<acct::ChannelMemberStoreDef>,
    pin: acct::Store<acct::ChannelPinStoreDef>,
    modr: acct::Store<acct::ChannelModerateStoreDef>,
    chain: acct::OnchainEventStore,
}
type Bad = Option<(&'static str, &'static str, String)>;
impl View {
    /// Did this node say that it let go of the message?  (It may have said so while nobody listened.)
    fn dropped(&self, hash: &[u8]) -> bool {
        use p::hub_event::Body as H;
        let mut from = 0;
        loop {
            let o = PageOptions { page_size: Some(500), page_token: None, reverse: false };
            let evs = <p::HubEvent as acct::HubEventStorageExt>::get_events(self.db.clone(), from, None, Some(o)).map(|x| x.events).unwrap_or_default();
            let hit = evs.iter().any(|e| match &e.body {
                Some(H::PruneMessageBody(b)) => b.message.as_ref().is_some_and(|m| m.hash == hash),
                Some(H::RevokeMessageBody(b)) => b.message.as_ref().is_some_and(|m| m.hash == hash),
                _ => false,
            });
            match evs.last() {
                Some(e) if !hit && evs.len() == 500 => from = e.id + 1,
                _ => return hit,
            }
        }
    }
    fn compare(&self, w: &Copy, s: u32, fids: &[u64], sim: &mut Sim) -> Bad {
        self.lends(w, fids, sim).or_else(|| self.keys(w, fids, sim)).or_else(|| self.verifs(w, s, fids, sim)).or_else(|| self.channels(w, fids, sim))
    }
    /// Every listing of what shard 0 decides, whole and by pages.
    fn listings(&self, w: &Copy, s: u32, fids: &[u64], sim: &mut Sim, r: &mut Rng) -> Bad {
        use crate::pages::{msgs, of, rows, walk, Listing};
        let at = format!("shard {s}");
        let ids: BTreeMap<Vec<u8>, String> = (0..=CHANNELS).map(|c| (gen::channel_id(&chan(c)), chan(c))).collect();
        let owners: BTreeSet<Vec<u8>> = w.regs.values().map(|x| x.owner.clone()).collect();
        let mut all: Vec<(Listing, Option<Vec<Vec<u8>>>)> = vec![];
        for id in ids.keys() {
            let ch = w.chans.get(id).cloned().unwrap_or_default();
            for want in [None, Some("Moderator"), Some("Member")] {
                let filter = match want {
                    Some("Moderator") => Some((Mem::Moderator, acct::ChannelMemberState::Moderator)),
                    Some(_) => Some((Mem::Member, acct::ChannelMemberState::Member)),
                    None => None,
                };
                let w: Vec<Vec<u8>> = ch.members.iter().filter(|x| filter.is_none_or(|f| state(x.1) == f.0)).map(|x| format!("{} {:?} {}", x.0, state(x.1), model::ts(x.1)).into_bytes()).collect();
                all.push((
                    of(format!("members {want:?} of {}", ids[id]), move |o| acct::ChannelMemberStore::members_by_channel(&self.mem, id, filter.map(|f| f.1), o), |x| (x.entries.iter().map(|e| format!("{} {:?} {}", e.fid, e.state, e.last_action_ts).into_bytes()).collect(), x.next_page_token)),
                    Some(w),
                ));
            }
            let mods: Vec<Vec<u8>> = ch.mods.iter().map(|(h, m)| match model::body(m) {
                Body::ChannelModerateBody(b) => format!("{} {} {}", hex::encode(h), b.action, model::fid(m)).into_bytes(),
                _ => unreachable!(),
            }).collect();
            all.push((
                of(format!("casts moderated in {}", ids[id]), move |o| acct::ChannelModerateStore::moderations_by_channel(&self.modr, id, o), |x| (x.entries.iter().map(|e| format!("{} {} {}", hex::encode(&e.cast_hash), e.action as i32, e.author_fid).into_bytes()).collect(), x.next_page_token)),
                Some(mods),
            ));
        }
        for f in fids.iter().copied() {
            let w: Vec<Vec<u8>> = w.chans.iter().filter_map(|(id, c)| c.members.get(&f).map(|m| format!("{} {:?}", hex::encode(id), state(m)).into_bytes())).collect();
            all.push((
                of(format!("channels {f} is of"), move |o| acct::ChannelMemberStore::memberships_by_fid(&self.mem, f, o), |x| (x.entries.iter().map(|e| format!("{} {:?}", hex::encode(&e.channel_id), e.state).into_bytes()).collect(), x.next_page_token)),
                Some(w),
            ));
            all.push((of(format!("keys of {f}"), move |o| acct::list_gasless_keys_by_fid(&self.db, f, o), |x| (x.records.iter().map(|r| r.0.to_vec()).collect(), x.next_page_token)), None));
            all.push((msgs(format!("verifications of {f}"), move |o| self.verif.get_all_messages_by_fid(f, None, None, o)), None));
        }
        for a in &owners {
            let mut k: Vec<Vec<u8>> = w.regs.values().filter(|x| x.owner == *a).map(|x| x.key.clone().into_bytes()).collect();
            k.sort();
            all.push((of(format!("channels owned by {}", short(a)), move |o| acct::get_channel_keys_by_owner_address(&self.db, a, o), |x| (x.0.iter().map(|k| k.clone().into_bytes()).collect(), x.1)), Some(k)));
        }
        let addrs: Vec<Vec<u8>> = owners.iter().filter(|_| r.chance(700)).cloned().collect();
        let keys: BTreeSet<(Vec<u8>, String)> = w.regs.values().filter(|x| addrs.contains(&x.owner)).map(|x| (x.owner.clone(), x.key.clone())).collect();
        let mut l = of(
            format!("channels owned by {} addresses", addrs.len()),
            {
                let addrs = addrs.clone();
                move |o: &PageOptions| acct::get_channel_keys_for_owner_addresses(&self.db, &addrs, o.page_token.as_deref(), o.page_size.unwrap_or(1000))
            },
            |x| (x.0.iter().map(|k| format!("{} {}", hex::encode(&k.0), k.1).into_bytes()).collect(), x.1),
        );
        l.both = false;
        all.push((l, Some(keys.iter().map(|k| format!("{} {}", hex::encode(&k.0), k.1).into_bytes()).collect())));
        if s == 0 {
            let (a, b) = (r.below(8), r.below(12));
            all.push((of(format!("blocks {a} and on"), move |o| snapchain::storage::store::block::get_blocks_in_range(&self.db, o, a, if b < 8 { Some(a + b) } else { None }), |x| (rows(&x.blocks), x.next_page_token)), None));
        }
        for (l, want) in &all {
            if !r.chance(350) {
                continue;
            }
            let got = walk(sim, &at, l, r);
            if let Some(x) = want {
                if got != *x {
                    let t = |v: &[Vec<u8>]| v.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>();
                    return Some(("B13", "listing_differs", format!("{}: {:?}; {:?} was decided", l.name, t(&got), t(x))));
                }
            }
        }
        None
    }
    fn lends(&self, w: &Copy, fids: &[u64], sim: &mut Sim) -> Bad {
        sim.count("oracle.B11");
        let slot = |x: acct::StorageSlot| -> U {
            [x.units_for(p::StorageUnitType::UnitTypeLegacy) as u64, x.units_for(p::StorageUnitType::UnitType2024) as u64, x.units_for(p::StorageUnitType::UnitType2025) as u64]
        };
        for f in fids {
            let l = slot(acct::StorageLendStore::get_lent_storage(&self.lend, *f).unwrap());
            if l != w.lent(*f) {
                return Some(("B11", "lent_differs", format!("{f} has lent {l:?}; by the loans accepted it is {:?}", w.lent(*f))));
            }
            let b = slot(acct::StorageLendStore::get_borrowed_storage(&self.lend, *f).unwrap());
            if b != w.borrowed(*f) {
                return Some(("B11", "borrowed_differs", format!("{f} has borrowed {b:?}; by the loans accepted it is {:?}", w.borrowed(*f))));
            }
        }
        None
    }
    fn keys(&self, w: &Copy, fids: &[u64], sim: &mut Sim) -> Bad {
        sim.count("oracle.B12");
        let txn = RocksDbTransactionBatch::new();
        for f in fids {
            let want: BTreeMap<Vec<u8>, (Vec<u8>, u64)> = w.keys.iter().filter(|x| x.0 .0 == *f).map(|(k, v)| (k.1.clone(), (v.m.hash.clone(), v.request_fid))).collect();
            let mut got = BTreeMap::new();
            let mut tok = None;
            for _ in 0..50 {
                let pg = acct::list_gasless_keys_by_fid(&self.db, *f, &PageOptions { page_size: Some(2), page_token: tok, reverse: false }).unwrap();
                for (k, r) in pg.records {
                    got.insert(k.to_vec(), (r.message.as_ref().map(|m| m.hash.clone()).unwrap_or_default(), r.request_fid));
                }
                tok = pg.next_page_token;
                if tok.is_none() {
                    break;
                }
            }
            if got != want {
                let t = |m: &BTreeMap<Vec<u8>, (Vec<u8>, u64)>| m.iter().map(|x| format!("{} by {} for {}", short(x.0), short(&x.1 .0), x.1 .1)).collect::<Vec<_>>();
                return Some(("B12", "keys_differ", format!("{f} has keys {:?}; it should have {:?}", t(&got), t(&want))));
            }
            let c = acct::get_gasless_key_count(&self.db, &txn, *f).unwrap();
            if c as usize != want.len() {
                return Some(("B12", "count_differs", format!("{f} is counted {c} keys and has {}", want.len())));
            }
            for k in want.keys() {
                let o = acct::get_gasless_key_owner_fid(&self.db, &txn, k).unwrap();
                if o != Some(*f) {
                    return Some(("B12", "owner_differs", format!("key {} is {f}'s, and is indexed as {o:?}'s", short(k))));
                }
                let u = acct::get_last_used_at(&self.db, &txn, *f, k).unwrap();
                let wu = w.used.get(&(*f, k.clone())).copied();
                if u != wu {
                    return Some(("B12", "last_used_differs", format!("key {} of {f} was last used {u:?}; {wu:?} by what it signed", short(k))));
                }
            }
            let un = acct::get_user_nonce(&self.db, &txn, *f).unwrap();
            let an = acct::get_app_nonce(&self.db, &txn, *f).unwrap();
            if (un, an) != (w.user_nonce.get(f).copied(), w.app_nonce.get(f).copied()) {
                return Some(("B12", "nonce_differs", format!("{f} is at nonces {un:?}, {an:?}; it should be at {:?}, {:?}", w.user_nonce.get(f), w.app_nonce.get(f))));
            }
        }
        None
    }
    fn verifs(&self, w: &Copy, s: u32, fids: &[u64], sim: &mut Sim) -> Bad {
        sim.count("oracle.B14");
        for f in fids {
            let mut got: BTreeMap<Vec<u8>, p::Message> = BTreeMap::new();
            for m in crate::ledger::pages(3, |o| acct::VerificationStore::get_verification_adds_by_fid(&self.verif, *f, o)) {
                got.insert(verif_addr(&m), m);
            }
            for m in crate::ledger::pages(3, |o| acct::VerificationStore::get_verification_removes_by_fid(&self.verif, *f, o)) {
                if let Some(x) = got.insert(verif_addr(&m), m.clone()) {
                    return Some(("B14", "both", format!("{f} has both {} and {}", brief(&x), brief(&m))));
                }
            }
            for ((_, a), m) in w.verifs.iter().filter(|x| x.0 .0 == *f) {
                match got.remove(a) {
                    Some(g) if g.hash == m.hash => {}
                    None if s > 0 && (w.gone.contains(&m.hash) || self.dropped(&m.hash)) => sim.count("reach.replica_pruned"),
                    g => return Some(("B14", "row_differs", format!("of {} it has {:?}, and {} was decided", short(a), g.as_ref().map(brief), brief(m)))),
                }
            }
            if let Some((_, m)) = got.iter().next() {
                return Some(("B14", "from_nowhere", format!("it has {}, which was never decided", brief(m))));
            }
        }
        None
    }
    fn channels(&self, w: &Copy, _fids: &[u64], sim: &mut Sim) -> Bad {
        sim.count("oracle.B13");
        for c in 0..=CHANNELS {
            let id = gen::channel_id(&chan(c));
            let o = self.chain.get_channel_owner(&chan(c), None).unwrap();
            let got = o.as_ref().map(|o| Reg { key: o.channel_key.clone(), owner: o.owner_address.clone(), expiry: o.expiry, at: (o.block_number, o.tx_index, o.log_index) });
            if got.as_ref() != w.regs.get(&id) {
                return Some(("B13", "registry_differs", format!("{} is on record as {got:?}; the chain's events make it {:?}", chan(c), w.regs.get(&id))));
            }
            let none = Chan::default();
            let ch = w.chans.get(&id).unwrap_or(&none);
            let u = acct::ChannelUpdateStore::get_channel_update(&self.upd, &id, None).unwrap().map(|x| x.body);
            let wu = ch.update.as_ref().map(|m| match model::body(m) {
                Body::ChannelUpdateBody(b) => b.clone(),
                _ => unreachable!(),
            });
            if u != wu {
                return Some(("B13", "update_differs", format!("{} reads {u:?}; {wu:?} was decided", chan(c))));
            }
            let mut mem = BTreeMap::new();
            let mut tok = None;
            for _ in 0..50 {
                let pg = acct::ChannelMemberStore::members_by_channel(&self.mem, &id, None, &PageOptions { page_size: Some(2), page_token: tok, reverse: false }).unwrap();
                for e in pg.entries {
                    mem.insert(e.fid, format!("{:?}", e.state));
                }
                tok = pg.next_page_token;
                if tok.is_none() {
                    break;
                }
            }
            let wm: BTreeMap<u64, String> = ch.members.iter().map(|(f, m)| (*f, format!("{:?}", state(m)))).collect();
            if mem != wm {
                return Some(("B13", "members_differ", format!("{} has {mem:?}; {wm:?} was decided", chan(c))));
            }
            let live = acct::ChannelMemberStore::live_moderator_count(&self.mem, &id, None).unwrap() as usize;
            let wl = ch.members.values().filter(|m| state(m) == Mem::Moderator).count();
            if live != wl {
                return Some(("B13", "moderators_differ", format!("{} counts {live} moderators and has {wl}", chan(c))));
            }
            let pin = acct::ChannelPinStore::get_channel_pin_state(&self.pin, &id, None).unwrap().map(|x| (x.body.cast_hash, x.author_fid));
            let wp = ch.pin.as_ref().map(|m| match model::body(m) {
                Body::ChannelPinBody(b) => (b.cast_hash.clone(), model::fid(m)),
                _ => unreachable!(),
            });
            if pin != wp {
                return Some(("B13", "pin_differs", format!("{} pins {pin:?}; {wp:?} was decided", chan(c))));
            }
            for x in 0..3u8 {
                let h = vec![x; 20];
                let g = acct::ChannelModerateStore::moderation_state(&self.modr, &id, &h, None).unwrap().map(|s| format!("{s:?}"));
                let wg = ch.mods.get(&h).map(|m| match model::body(m) {
                    Body::ChannelModerateBody(b) if b.action == 1 => "Hidden".to_string(),
                    _ => "Visible".to_string(),
                });
                if g != wg {
                    return Some(("B13", "moderation_differs", format!("{} holds {} as {g:?}; {wg:?} was decided", chan(c), short(&h))));
                }
            }
        }
        None
    }
}
#[allow(dead_code)]
fn unused() {
    let _ = (event_message, FarcasterTime::new(0));
}

pub fn brief_chain(e: &p::OnChainEvent) -> String {
    let what = match &e.body {
        Some(p::on_chain_event::Body::ChannelRegisterEventBody(b)) => {
            format!(" {:?} {} for {} until {}", b.event_type(), b.channel_key, short(&b.owner_address), b.expiry)
        }
        _ => String::new(),
    };
    format!("{:?} fid {} at {}/{}/{}{what}", e.r#type(), e.fid, e.block_number, e.tx_index, e.log_index)
}

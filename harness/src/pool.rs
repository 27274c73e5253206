//! The world of the mempool: clients, peers and the chain's followers hand messages to the real pool
//! over its channels, block builders take from it, decided blocks come back to it, and it forgets
//! everything when its node goes down.  It is judged by a small pool written from what it promises.
use crate::cluster::*;
use crate::core::*;
use crate::gen;
use crate::ledger::{dec, enc, home, of_shard_zero};
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::core::error::HubError;
use snapchain::core::util::FarcasterTime;
use snapchain::mempool::mempool as mp;
use snapchain::network::gossip::GossipEvent;
use snapchain::proto as p;
use snapchain::proto::message_data::Body;
use snapchain::storage::store::mempool_poller::{MempoolMessage, MempoolPoller};
use snapchain::storage::store::stores::StoreLimits;
use snapchain::storage::store::test_helper;
use snapchain::version::version::{EngineVersion, ProtocolFeature};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::time::Duration;
use tokio::sync::{broadcast, mpsc, oneshot};

pub struct Pool;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Knobs {
    base: u64,
    shards: u32,
    fids: Vec<u64>,
    net: i32,
    limits: bool,
    /// no more than this many waiting at once, unless 0
    room: u64,
    /// a node that builds no blocks
    reader: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum M {
    User(String),
    Chain(String),
    Again(String),
    Name(String),
    /// one of shard 0's events, by its number, for this shard
    Event(u64, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
enum Op {
    Start,
    Stop,
    Clock { ms: u64 },
    /// handed over at once, each with where it comes from
    Add { msgs: Vec<(M, u8)> },
    /// many small messages of one account
    Flood { fid: u64, live: bool, n: u32 },
    Size,
    /// a block builder asks, and nothing comes of its block
    Take { shard: u32, max: u32 },
    /// a block is built (here, or elsewhere out of these) and decided
    Block { shard: u32, max: u32, other: Option<Vec<M>>, events: u64 },
    /// another's block repeats what is waiting here
    Steal { shard: u32, one_in: u64, seed: u64 },
    /// what is decided next is heard of only this many steps later
    Late { steps: u64 },
    /// a client sends what was merged long ago, again and again
    Nag { fid: u64, n: u32, seed: u64 },
}

fn is_live(m: &p::Message) -> bool {
    matches!(m.data.as_ref().and_then(|d| d.body.as_ref()), Some(Body::UserDataBody(b)) if b.r#type == 14)
}
fn is_key_add(m: &p::Message) -> bool {
    matches!(m.data.as_ref().and_then(|d| d.body.as_ref()), Some(Body::KeyAddBody(_)))
}
type Key = (u8, u64, String);
fn key_of(m: &MempoolMessage) -> Key {
    match m {
        MempoolMessage::UserMessage(m) => (2, m.data.as_ref().unwrap().timestamp as u64 + gen::FC_EPOCH, hex::encode(&m.hash)),
        MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => (1, e.block_timestamp, format!("{}{}", hex::encode(&e.transaction_hash), e.log_index)),
        MempoolMessage::FnameTransfer(t) => (1, t.proof.as_ref().unwrap().timestamp, t.id.to_string()),
        MempoolMessage::BlockEvent { message, .. } => (1, message.block_timestamp(), message.seqnum().to_string()),
    }
}
fn text(m: &MempoolMessage) -> String {
    match m {
        MempoolMessage::UserMessage(m) => msg_text(m),
        MempoolMessage::OnchainEvent(e) => format!("event {} of {} at {}", e.r#type, e.fid, e.block_timestamp),
        MempoolMessage::OnchainEventForMigration(e) => format!("event {} of {} at {} again", e.r#type, e.fid, e.block_timestamp),
        MempoolMessage::FnameTransfer(t) => format!("name transfer {}", t.id),
        MempoolMessage::BlockEvent { for_shard, message } => format!("block event {} for {for_shard}", message.seqnum()),
    }
}

/// So many at once, refilled evenly over a period.
#[derive(Clone)]
struct Bucket {
    size: u64,
    every_us: u64,
    /// when the bucket would be full again
    full: u64,
}
impl Bucket {
    fn new(size: u64, period_s: u64) -> Self {
        Bucket { size, every_us: period_s * 1_000_000 / size, full: 0 }
    }
    /// Whether one more may pass: None when it is too close to tell.
    fn ask(&self, now: u64) -> Option<bool> {
        let owed = self.full.saturating_sub(now);
        let room = self.size * self.every_us;
        // the code counts in nanoseconds
        let near = owed + self.every_us;
        if near <= room {
            return Some(true);
        }
        if near > room + 2_000.max(self.size) {
            return Some(false);
        }
        None
    }
    fn spend(&mut self, now: u64) {
        self.full = self.full.max(now) + self.every_us;
    }
}

#[derive(Default)]
struct Model {
    pools: BTreeMap<u32, BTreeMap<Key, MempoolMessage>>,
    keys: HashMap<u64, Bucket>,
    live: HashMap<u64, Bucket>,
    all: HashMap<u64, Bucket>,
}

struct Live {
    add: mpsc::Sender<mp::MempoolRequest>,
    ask: mpsc::Sender<mp::MempoolMessagesRequest>,
    chunks: broadcast::Sender<p::ShardChunk>,
    blocks: broadcast::Sender<p::Block>,
    gossip: mpsc::Receiver<GossipEvent<snapchain::core::types::SnapchainValidatorContext>>,
    task: tokio::task::JoinHandle<()>,
}
enum Told {
    Chunk(p::ShardChunk),
    Block(p::Block),
}
enum Waiting {
    Add(MempoolMessage, u8, Option<oneshot::Receiver<Result<(), HubError>>>),
    Size(oneshot::Receiver<HashMap<u32, u64>>),
}

struct Run {
    k: Knobs,
    c: Cluster,
    m: Model,
    live: Option<Live>,
    queue: VecDeque<Waiting>,
    elapsed: u64,
    /// how long decisions are on their way, and those that are
    wait: u64,
    at: u64,
    late: VecDeque<(u64, u32, Told)>,
    dead: bool,
    /// what each shard holds, as of its height
    held: HashMap<u32, (u64, BTreeSet<Vec<u8>>)>,
}

impl World for Pool {
    fn name(&self) -> &'static str {
        "pool"
    }
    fn generate(&self, seed: u64, _focus: &str, thorough: bool) -> Case {
        let root = Rng::new(seed);
        let mut r = root.fork("plan");
        let r = &mut r;
        let k = Knobs {
            base: crate::sys::BASE_UNIX,
            shards: r.range(1, 3) as u32,
            fids: {
                let n = r.range(2, 4);
                gen::accounts(&mut root.fork("accounts"), n)
            },
            net: if r.chance(120) { 1 } else { 3 },
            limits: r.chance(500),
            room: if r.chance(250) { r.range(2, 12) } else { 0 },
            reader: r.chance(80),
        };
        let mut plan: Vec<serde_json::Value> = vec![];
        let mut push = |o: Op| plan.push(serde_json::to_value(&o).unwrap());
        let mut t = 0u64;
        let mut n = 0u64;
        let mut past: Vec<M> = vec![];
        push(Op::Start);
        let mut first = vec![];
        for f in &k.fids {
            n += 3;
            first.push(M::Chain(enc(&gen::id_register(*f, gen::custody(*f, 0).address().to_vec(), false, k.base - 100, n))));
            first.push(M::Chain(enc(&gen::signer_event(*f, gen::pubkey(*f, 0), true, k.base - 90, n + 1))));
            if r.chance(850) {
                first.push(M::Chain(enc(&gen::rent(*f, r.range(1, 2) as u32, k.base - 80, n + 2))));
            }
        }
        push(Op::Add { msgs: first.into_iter().map(|m| (m, 2)).collect() });
        for shard in 0..=k.shards {
            if r.chance(900) {
                push(Op::Block { shard, max: 100, other: None, events: 99 });
            }
        }
        let steps = if thorough { 120 } else { 60 };
        for _ in 0..steps {
            let shard = r.below(k.shards as u64 + 1) as u32;
            let now = k.base + t;
            let max = *r.pick(&[1, 1, 2, 3, 5, 20, 100]);
            match r.below(100) {
                0..=47 => {
                    let mut msgs = vec![];
                    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 8]) {
                        let m = if !past.is_empty() && r.chance(150) { r.pick(&past).clone() } else { draw(r, &k, now, &mut n) };
                        past.push(m.clone());
                        msgs.push((m, r.below(3) as u8));
                    }
                    push(Op::Add { msgs });
                }
                48..=57 => push(Op::Take { shard, max }),
                58..=74 => {
                    let other = if r.chance(250) { Some((0..r.range(1, 4)).map(|_| if !past.is_empty() && r.chance(500) { r.pick(&past).clone() } else { draw(r, &k, now, &mut n) }).collect()) } else { None };
                    push(Op::Block { shard, max, other, events: r.below(6) });
                    t += 1;
                }
                75..=79 => {
                    let late = r.chance(350);
                    if late {
                        push(Op::Late { steps: r.range(1, 4) });
                    }
                    push(Op::Steal { shard, one_in: r.range(1, 3), seed: r.u64() });
                    if late && r.chance(600) {
                        push(Op::Take { shard, max: r.range(1, 4) as u32 });
                    }
                }
                80..=86 => push(Op::Size),
                87 | 88 => {
                    push(Op::Stop);
                    push(Op::Start);
                }
                89 if k.room == 0 && !k.reader && r.chance(600) => {
                    // an account uses up what it may send, its storage changes, and it tries again
                    let fid = *r.pick(&k.fids);
                    let live = !k.limits || r.chance(400);
                    let burst = if live { *r.pick(&[5003, 10_004]) } else { *r.pick(&[1010, 2100]) };
                    if r.chance(400) {
                        push(Op::Stop);
                        push(Op::Start);
                    }
                    if !live && k.limits && r.chance(250) {
                        let ts = (now - gen::FC_EPOCH) as u32 - 3;
                        let m = gen::message(fid, p::MessageType::CastAdd, ts, Body::CastAddBody(p::CastAddBody { text: format!("o{n}"), ..Default::default() }), &gen::signer(fid, 0), p::FarcasterNetwork::try_from(3).unwrap());
                        push(Op::Block { shard: home(fid, k.shards), max: 10, other: Some(vec![M::User(enc(&m))]), events: 0 });
                        t += 1;
                        push(Op::Nag { fid, n: if r.chance(500) { 1100 } else { 300 }, seed: r.u64() });
                    }
                    push(Op::Flood { fid, live, n: burst });
                    n += 1;
                    if r.chance(200) {
                        // silence, which renews nothing before its time
                        let ms = r.range(1, 30) * 61_000;
                        push(Op::Clock { ms });
                        push(Op::Flood { fid, live, n: burst });
                        t += ms / 1000;
                    }
                    let ts = (now - gen::FC_EPOCH) as u32;
                    let net = p::FarcasterNetwork::try_from(3).unwrap();
                    if r.chance(500) {
                        let e = M::Chain(enc(&gen::rent(fid, 1, now - 2, n)));
                        push(Op::Block { shard: if r.chance(500) { home(fid, k.shards) } else { 0 }, max: 10, other: Some(vec![e]), events: 0 });
                    } else {
                        let to_fid = *r.pick(&k.fids);
                        let (from, to_fid) = if r.chance(500) { (fid, to_fid) } else { (to_fid, fid) };
                        let b = p::LendStorageBody { to_fid, num_units: r.below(2), unit_type: r.below(3) as i32 };
                        let m = gen::message(from, p::MessageType::LendStorage, ts, Body::LendStorageBody(b), &gen::signer(from, 0), net);
                        push(Op::Block { shard: 0, max: 10, other: Some(vec![M::User(enc(&m))]), events: 0 });
                    }
                    if r.chance(300) {
                        // before the account's own shard has heard
                        push(Op::Flood { fid, live, n: 3 });
                    }
                    if r.chance(500) {
                        push(Op::Block { shard: home(fid, k.shards), max: 0, other: None, events: 99 });
                    }
                    push(Op::Flood { fid, live, n: burst });
                    t += 2;
                }
                89 if k.room == 0 && !k.reader => {
                    let fid = *r.pick(&k.fids);
                    let live = r.chance(400);
                    push(Op::Flood { fid, live, n: if live { *r.pick(&[5003, 10_004, 700]) } else { *r.pick(&[104, 1010, 2100]) } });
                }
                _ => {
                    let ms = match r.below(8) {
                        0 => 60_000,
                        1 => r.range(59_000, 61_000),
                        2 => r.range(1, 300) * 1000,
                        3 => 3_600_000,
                        4 => r.range(1, 3) * 7_200_000,
                        _ => r.range(1, 5000),
                    };
                    push(Op::Clock { ms });
                    t += ms / 1000;
                }
            }
        }
        push(Op::Size);
        for shard in 0..=k.shards {
            push(Op::Take { shard, max: 5000 });
        }
        push(Op::Size);
        Case { world: "pool".into(), seed, knobs: serde_json::to_value(&k).unwrap(), plan }
    }
    fn run(&self, case: &Case, sim: &mut Sim) {
        let k: Knobs = serde_json::from_value(case.knobs.clone()).unwrap();
        crate::sys::set_base_unix_ms(k.base as i64 * 1000);
        let base = std::env::current_dir().unwrap();
        let mut w = Run { c: Cluster::new(&base, 1, k.shards, StoreLimits::default()), m: Model::default(), live: None, queue: VecDeque::new(), elapsed: 0, dead: false, held: HashMap::new(), wait: 0, at: 0, late: VecDeque::new(), k };
        for (i, v) in case.plan.iter().enumerate() {
            let op: Op = serde_json::from_value(v.clone()).unwrap();
            w.news(sim, i as u64);
            w.step(sim, i, op);
            if w.dead {
                break;
            }
        }
        std::mem::forget(w);
    }
}

fn draw(r: &mut Rng, k: &Knobs, now: u64, n: &mut u64) -> M {
    *n += 1;
    let f = *r.pick(&k.fids);
    let ts = ((now - gen::FC_EPOCH) as i64 - if r.chance(700) { r.below(5) as i64 } else { r.below(500) as i64 } + if r.chance(100) { r.below(400) as i64 } else { 0 }) as u32;
    let net = p::FarcasterNetwork::try_from(3).unwrap();
    let key = gen::signer(f, 0);
    let msg = |ty, body| M::User(enc(&gen::message(f, ty, ts, body, &key, net)));
    match r.below(100) {
        0..=19 => msg(p::MessageType::CastAdd, Body::CastAddBody(p::CastAddBody { text: format!("t{}", r.below(40)), ..Default::default() })),
        20..=23 => msg(p::MessageType::CastRemove, Body::CastRemoveBody(p::CastRemoveBody { target_hash: vec![r.below(9) as u8; 20] })),
        24..=39 => msg(p::MessageType::UserDataAdd, Body::UserDataBody(p::UserDataBody { r#type: 14, value: format!("https://x.com/{}", r.below(3)) })),
        40..=42 => msg(p::MessageType::UserDataAdd, Body::UserDataBody(p::UserDataBody { r#type: 3, value: format!("b{}", r.below(3)) })),
        43..=47 => msg(p::MessageType::LinkAdd, Body::LinkBody(p::LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(p::link_body::Target::TargetFid(*r.pick(&k.fids))) })),
        48..=51 => msg(
            p::MessageType::LinkCompactState,
            Body::LinkCompactStateBody(p::LinkCompactStateBody { r#type: "follow".into(), target_fids: k.fids.iter().filter(|_| r.chance(500)).copied().collect() }),
        ),
        52..=56 => msg(p::MessageType::LendStorage, Body::LendStorageBody(p::LendStorageBody { to_fid: *r.pick(&k.fids), num_units: *r.pick(&[0, 1, 1, 2]), unit_type: r.below(3) as i32 })),
        57..=66 => {
            let sk = gen::signer(f, 100 + r.below(6));
            let a = gen::KeyAdd { fid: f, key: sk.clone(), scopes: vec![1, 2], ttl: 86_400, nonce: *n as u32, deadline: (now - gen::FC_EPOCH) as u32 + 3000, request_fid: f };
            let b = gen::key_add_body(&a, &gen::custody(f, 0), &gen::custody(f, 0));
            M::User(enc(&gen::message(f, p::MessageType::KeyAdd, ts, Body::KeyAddBody(b), &sk, net)))
        }
        67..=69 => {
            let sk = gen::signer(f, 100 + r.below(6));
            let pk = sk.verifying_key().to_bytes().to_vec();
            let b = gen::key_remove_custody_body(f, &pk, *n as u32, (now - gen::FC_EPOCH) as u32 + 3000, &gen::custody(f, 0));
            M::User(enc(&gen::message(f, p::MessageType::KeyRemove, ts, Body::KeyRemoveBody(b), &sk, net)))
        }
        70..=74 => msg(p::MessageType::VerificationAddEthAddress, Body::VerificationAddAddressBody(gen::verification_eth(f, &gen::eth("w", r.below(3)), &[0; 32], net))),
        75..=76 => msg(p::MessageType::VerificationRemove, Body::VerificationRemoveBody(p::VerificationRemoveBody { address: gen::eth("w", r.below(3)).address().to_vec(), protocol: 0 })),
        77..=79 => {
            let channel_id = gen::channel_id(&format!("chan{}", r.below(3)));
            match r.below(4) {
                0 => msg(p::MessageType::ChannelUpdate, Body::ChannelUpdateBody(p::ChannelUpdateBody { channel_id, name: Some("n".into()), ..Default::default() })),
                1 => msg(p::MessageType::ChannelPin, Body::ChannelPinBody(p::ChannelPinBody { channel_id, cast_hash: vec![1; 20] })),
                2 => msg(p::MessageType::ChannelModerate, Body::ChannelModerateBody(p::ChannelModerateBody { channel_id, cast_hash: vec![1; 20], action: 1 })),
                _ => msg(p::MessageType::ChannelMember, Body::ChannelMemberBody(p::ChannelMemberBody { channel_id, fid: f, action: 1 })),
            }
        }
        80..=86 => {
            let e = if r.chance(600) { gen::rent(f, r.range(1, 2) as u32, now - r.below(50), *n) } else { gen::signer_event(f, gen::pubkey(f, 200 + r.below(3)), r.chance(700), now - r.below(50), *n) };
            if r.chance(150) {
                M::Again(enc(&e))
            } else {
                M::Chain(enc(&e))
            }
        }
        87..=89 => M::Name(enc(&gen::fname_transfer(1000 + *n, &format!("name{}", r.below(4)), f, if r.chance(300) { *r.pick(&k.fids) } else { 0 }, now - r.below(20), vec![3; 20]))),
        90..=97 => M::Event(r.range(1, 1 + *n / 4), if r.chance(60) { 0 } else { r.range(1, k.shards as u64) as u32 }),
        // as a peer may send it
        98 => {
            let mut m = gen::message(f, p::MessageType::CastAdd, ts, Body::CastAddBody(p::CastAddBody::default()), &key, net);
            m.data = None;
            M::User(enc(&m))
        }
        _ => msg(p::MessageType::CastAdd, Body::CastAddBody(p::CastAddBody { text: "same".into(), ..Default::default() })),
    }
}

fn source(s: u8) -> mp::MempoolSource {
    match s {
        0 => mp::MempoolSource::RPC,
        1 => mp::MempoolSource::Gossip,
        _ => mp::MempoolSource::Local,
    }
}

impl Run {
    fn net(&self) -> p::FarcasterNetwork {
        p::FarcasterNetwork::try_from(self.k.net).unwrap()
    }
    fn now_us(&self) -> u64 {
        self.elapsed * 1000 + 1_000_000_000
    }
    fn version(&self) -> EngineVersion {
        EngineVersion::version_for(&FarcasterTime::new((crate::sys::unix_ms() / 1000) as u64 - gen::FC_EPOCH), self.net())
    }
    fn on(&self, f: ProtocolFeature) -> bool {
        self.version().is_enabled(f)
    }
    fn real(&self, m: &M) -> Option<MempoolMessage> {
        Some(match m {
            M::User(m) => MempoolMessage::UserMessage(dec(m)),
            M::Chain(e) => MempoolMessage::OnchainEvent(dec(e)),
            M::Again(e) => MempoolMessage::OnchainEventForMigration(dec(e)),
            M::Name(t) => MempoolMessage::FnameTransfer(dec(t)),
            M::Event(n, s) => MempoolMessage::BlockEvent { for_shard: *s, message: self.c.block_events.iter().find(|e| e.seqnum() == *n)?.clone() },
        })
    }

    // ------------------------------------------------------------ what it should do

    fn shards_of(&self, m: &MempoolMessage) -> Vec<u32> {
        match m {
            MempoolMessage::UserMessage(u) => {
                let ty = u.data.as_ref().map(|d| d.r#type());
                let verif = matches!(ty, Some(p::MessageType::VerificationAddEthAddress | p::MessageType::VerificationRemove));
                if of_shard_zero(u) && (!verif || self.on(ProtocolFeature::VerificationsOnShardZero)) {
                    vec![0]
                } else {
                    vec![home(u.data.as_ref().map_or(0, |d| d.fid), self.k.shards)]
                }
            }
            MempoolMessage::OnchainEvent(e) => vec![0, home(e.fid, self.k.shards)],
            MempoolMessage::OnchainEventForMigration(_) => vec![0],
            MempoolMessage::FnameTransfer(t) if !self.on(ProtocolFeature::UsernameShardRoutingFix) => vec![home(t.proof.as_ref().unwrap().fid, self.k.shards)],
            MempoolMessage::FnameTransfer(_) => (1..=self.k.shards).collect(),
            MempoolMessage::BlockEvent { for_shard, .. } => vec![*for_shard],
        }
    }
    fn merged(&mut self, s: u32, m: &p::Message) -> bool {
        let Some(d) = &m.data else { return false };
        // no store keeps these by their own identity
        if matches!(d.r#type(), p::MessageType::LinkCompactState | p::MessageType::KeyAdd | p::MessageType::KeyRemove) {
            return false;
        }
        let h = self.c.height(0, s);
        if self.held.get(&s).map_or(true, |x| x.0 != h) {
            let rows = self.c.dump(0, s);
            let set = rows.into_iter().filter(|(k, _)| k[0] == 3).filter_map(|(_, v)| p::Message::decode(v.as_slice()).ok()).map(|m| m.hash).collect();
            self.held.insert(s, (h, set));
        }
        self.held[&s].1.contains(&m.hash)
    }
    /// Could this be built into a block of that shard?
    fn sound(&mut self, s: u32, m: &MempoolMessage) -> bool {
        match m {
            MempoolMessage::UserMessage(u) => {
                use p::MessageType::*;
                let Some(d) = &u.data else { return false };
                match d.r#type() {
                    ChannelUpdate | ChannelMember | ChannelPin | ChannelModerate if !self.on(ProtocolFeature::ChannelMessages) => false,
                    KeyAdd | KeyRemove if !self.on(ProtocolFeature::GaslessSigners) => false,
                    _ => !self.merged(s, u),
                }
            }
            MempoolMessage::BlockEvent { for_shard, message } => {
                *for_shard != 0 && {
                    let done = self.c.shard(0, *for_shard).get_stores().block_event_store.max_seqnum().unwrap_or(0);
                    message.seqnum() > done
                }
            }
            _ => true,
        }
    }
    fn units(&mut self, fid: u64) -> (u64, u64) {
        let s = home(fid, self.k.shards);
        let l = self.c.shard(0, s).get_stores().get_storage_limits(fid).unwrap();
        (l.units as u64, l.limits.iter().map(|x| x.limit as u64).sum())
    }
    /// Is one more within what the account may send?  None: too close to tell.  What it costs, too.
    fn allowed(&mut self, m: &MempoolMessage) -> (Option<bool>, Vec<(char, u64)>) {
        let MempoolMessage::UserMessage(u) = m else { return (Some(true), vec![]) };
        let fid = u.data.as_ref().unwrap().fid;
        let now = self.now_us();
        let mut cost = vec![];
        if is_key_add(u) {
            let b = self.m.keys.entry(fid).or_insert_with(|| Bucket::new(1, 60));
            match b.ask(now) {
                Some(true) => cost.push(('k', fid)),
                x => return (x, cost),
            }
        }
        if is_live(u) {
            if !self.m.live.contains_key(&fid) {
                let (units, _) = self.units(fid);
                if units == 0 {
                    return (Some(false), cost);
                }
                self.m.live.insert(fid, Bucket::new(units * 5000, 3600));
            }
            cost.push(('l', fid));
            return (self.m.live[&fid].ask(now), cost);
        }
        if self.k.limits {
            if !self.m.all.contains_key(&fid) {
                let (_, allowance) = self.units(fid);
                if allowance == 0 {
                    return (Some(false), cost);
                }
                self.m.all.insert(fid, Bucket::new((allowance / 10).max(100), 3600));
            }
            cost.push(('a', fid));
            return (self.m.all[&fid].ask(now), cost);
        }
        (Some(true), cost)
    }
    fn spend(&mut self, cost: &[(char, u64)]) {
        let now = self.now_us();
        for (w, f) in cost {
            let b = match w {
                'k' => &mut self.m.keys,
                'l' => &mut self.m.live,
                _ => &mut self.m.all,
            };
            b.get_mut(f).unwrap().spend(now);
        }
    }
    /// One message enters.  `told`, when known, is what the pool answered.
    fn enter(&mut self, sim: &mut Sim, m: &MempoolMessage, src: u8, told: Option<bool>) -> Vec<MempoolMessage> {
        let mut out = vec![];
        let nodata = matches!(m, MempoolMessage::UserMessage(u) if u.data.is_none());
        let mut ok = true;
        let mut unsure = false;
        let mut why = String::new();
        if nodata {
            ok = false;
            why = "it says nothing".into();
            if self.k.reader {
                // what cannot be told apart is for others to judge
                unsure = true;
            }
        }
        let shards = if nodata { vec![] } else { self.shards_of(m) };
        if self.k.reader && !nodata {
            ok = !matches!(m, MempoolMessage::UserMessage(u) if shards.iter().all(|s| self.merged(*s, u)));
            why = "already merged".into();
            if ok && matches!(m, MempoolMessage::UserMessage(_)) && src != 1 {
                out.push(m.clone());
            }
        } else {
            let key = (!nodata).then(|| key_of(m));
            for s in shards {
                let key = key.clone().unwrap();
                if self.m.pools.get(&s).map_or(false, |x| x.contains_key(&key)) {
                    ok = false;
                    why = format!("it waits for shard {s} already");
                    sim.count("probe.repeat");
                    continue;
                }
                let mut older = None;
                if let MempoolMessage::UserMessage(u) = m {
                    if is_live(u) {
                        let fid = u.data.as_ref().unwrap().fid;
                        let was = self.m.pools.get(&s).and_then(|x| {
                            x.iter().find(|(_, m)| matches!(m, MempoolMessage::UserMessage(v) if is_live(v) && v.data.as_ref().unwrap().fid == fid)).map(|(k, m)| (k.clone(), m.clone()))
                        });
                        if let Some((k, MempoolMessage::UserMessage(v))) = was {
                            let at = |m: &p::Message| (m.data.as_ref().unwrap().timestamp, m.hash.clone());
                            if at(&v) > at(u) {
                                ok = false;
                                why = "a newer heartbeat waits".into();
                                sim.count("probe.older_heartbeat");
                                continue;
                            }
                            older = Some(k);
                        }
                    }
                }
                if !self.sound(s, m) {
                    ok = false;
                    why = format!("shard {s} has it already, or cannot have it yet");
                    sim.count("probe.merged_already");
                    continue;
                }
                let (may, cost) = self.allowed(m);
                match may {
                    Some(true) => self.spend(&cost),
                    Some(false) => {
                        // what was charged before the refusal stays charged
                        let paid: Vec<_> = cost.into_iter().filter(|c| c.0 == 'k').collect();
                        self.spend(&paid);
                        ok = false;
                        why = "it is over what the account may send".into();
                        sim.count("probe.over_limit");
                        continue;
                    }
                    None => {
                        unsure = true;
                        if told == Some(true) {
                            self.spend(&cost);
                        } else {
                            continue;
                        }
                    }
                }
                if older.is_some() {
                    sim.count("probe.newer_heartbeat");
                }
                let pool = self.m.pools.entry(s).or_default();
                if let Some(k) = older {
                    pool.remove(&k);
                }
                pool.insert(key, m.clone());
                if matches!(m, MempoolMessage::UserMessage(_)) && src != 1 {
                    out.push(m.clone());
                }
            }
        }
        if let Some(t) = told {
            if !unsure {
                sim.check("C01", if ok { "taken_in" } else { "kept_out" }, t == ok, || {
                    format!("{}: the pool answered {}, where {}", text_or(m), if t { "yes" } else { "no" }, if ok { "nothing stands against it".into() } else { why.clone() })
                });
            }
            sim.count(if t { "op.accepted" } else { "op.refused" });
        }
        out
    }

    // ------------------------------------------------------------ what happens

    fn step(&mut self, sim: &mut Sim, i: usize, op: Op) {
        match op {
            Op::Start => {
                if self.live.is_none() {
                    if !self.c.nodes[0].up {
                        self.c.start(sim, 0);
                    }
                    self.open(sim);
                }
            }
            Op::Stop => {
                if let Some(l) = self.live.take() {
                    sim.log(format!("{i} the node stops"));
                    sim.count("fault.crash");
                    l.task.abort();
                    let rt = self.rt();
                    rt.block_on(tokio::task::yield_now());
                    drop(l);
                    self.queue.clear();
                    self.m = Model::default();
                    self.held.clear();
                    self.late.clear();
                    self.wait = 0;
                    self.c.down(0);
                }
            }
            Op::Clock { ms } => {
                self.elapsed += ms;
                crate::sys::set_elapsed_ms(self.elapsed);
                sim.count("fault.clock_advance");
            }
            _ if self.live.is_none() => {}
            Op::Add { msgs } => {
                let msgs: Vec<(MempoolMessage, u8)> = msgs.iter().filter_map(|(m, s)| Some((self.real(m)?, *s))).collect();
                sim.log(format!("{i} {} handed over", msgs.len()));
                for (m, s) in msgs {
                    self.hand(sim, m, s);
                }
                self.settle(sim);
            }
            Op::Flood { fid, live, n } => {
                sim.log(format!("{i} account {fid} sends {n} at once, heartbeats {live}"));
                sim.count("fault.flood");
                let ts = ((crate::sys::unix_ms() / 1000) as u64 - gen::FC_EPOCH) as u32;
                for x in 0..n {
                    let body = if live { Body::UserDataBody(p::UserDataBody { r#type: 14, value: "x".into() }) } else { Body::CastAddBody(p::CastAddBody { text: "f".into(), ..Default::default() }) };
                    let ty = if live { p::MessageType::UserDataAdd } else { p::MessageType::CastAdd };
                    let data = p::MessageData { r#type: ty as i32, fid, timestamp: ts, network: 3, body: Some(body) };
                    // signed by nobody: the pool does not look
                    let mut hash = vec![0xf0; 12];
                    hash.extend(((i as u64) << 32 | x as u64).to_be_bytes());
                    let m = p::Message { data: Some(data), hash, ..Default::default() };
                    self.hand(sim, MempoolMessage::UserMessage(m), (x % 3) as u8);
                    if x % 200 == 199 {
                        self.settle(sim);
                        if self.dead {
                            return;
                        }
                    }
                }
                self.settle(sim);
                // nothing more is to come of them
                if !live {
                    let s = home(fid, self.k.shards);
                    self.take(sim, s, 5000);
                }
            }
            Op::Size => {
                let (tx, rx) = oneshot::channel();
                self.live.as_ref().unwrap().add.try_send(mp::MempoolRequest::GetSize(tx)).ok().unwrap();
                self.queue.push_back(Waiting::Size(rx));
                self.settle(sim);
            }
            Op::Take { shard, max } => {
                if shard <= self.k.shards && !self.k.reader {
                    sim.log(format!("{i} shard {shard} takes up to {max}, in vain"));
                    self.take(sim, shard, max);
                    self.settle(sim);
                }
            }
            Op::Late { steps } => self.wait = steps,
            Op::Nag { fid, n, seed } => {
                let s = home(fid, self.k.shards);
                let all: Vec<p::Message> = self.c.chains[s as usize].iter().filter_map(|d| d.chunk.as_ref()).flat_map(|c| &c.transactions).filter(|t| t.fid == fid).flat_map(|t| t.user_messages.iter().cloned()).collect();
                let old: Vec<_> = all.into_iter().filter(|m| !is_live(m) && self.merged(s, m)).collect();
                if old.is_empty() {
                    return;
                }
                let m = &old[(seed % old.len() as u64) as usize];
                sim.log(format!("{i} a client sends {n} times what was merged: {}", text_or(&MempoolMessage::UserMessage(m.clone()))));
                sim.count("fault.nagging");
                for x in 0..n {
                    self.hand(sim, MempoolMessage::UserMessage(m.clone()), 0);
                    if x % 200 == 199 {
                        self.settle(sim);
                        if self.dead {
                            return;
                        }
                    }
                }
                self.settle(sim);
            }
            Op::Steal { shard, one_in, seed } => {
                if shard <= self.k.shards {
                    let mut r = Rng::new(seed);
                    let msgs: Vec<MempoolMessage> = self.m.pools.get(&shard).into_iter().flat_map(|x| x.values()).filter(|_| r.below(one_in) == 0).take(40).cloned().collect();
                    sim.log(format!("{i} shard {shard}: another builds {} of what waits here", msgs.len()));
                    sim.count("op.another_proposer");
                    self.build(sim, shard, msgs);
                }
            }
            Op::Block { shard, max, other, events } => {
                if shard > self.k.shards {
                    return;
                }
                let msgs = match &other {
                    Some(o) => o.iter().filter_map(|m| self.real(m)).filter(|m| !matches!(m, MempoolMessage::UserMessage(u) if u.data.is_none())).filter(|m| self.shards_of(m).contains(&shard)).collect(),
                    None if self.k.reader => vec![],
                    None => {
                        // shard 0's next events come with it
                        if shard > 0 && events > 0 {
                            let done = self.c.shard(0, shard).get_stores().block_event_store.max_seqnum().unwrap_or(0);
                            let evs: Vec<_> = self.c.block_events.iter().filter(|e| e.seqnum() > done).take(events as usize).cloned().collect();
                            for e in evs {
                                self.hand(sim, MempoolMessage::BlockEvent { for_shard: shard, message: e }, 2);
                            }
                            self.settle(sim);
                        }
                        self.take(sim, shard, max)
                    }
                };
                sim.log(format!("{i} shard {shard} builds {} ({})", msgs.len(), if other.is_some() { "elsewhere" } else { "here" }));
                self.build(sim, shard, msgs);
            }
        }
    }
    fn rt(&self) -> &'static tokio::runtime::Runtime {
        // one for every run in this process: each starts paused and alone
        thread_local!(static RT: &'static tokio::runtime::Runtime = Box::leak(Box::new(tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap())));
        RT.with(|r| *r)
    }
    fn open(&mut self, sim: &mut Sim) {
        let (add, rx) = mpsc::channel(4000);
        let (ask, ask_rx) = mpsc::channel(8);
        let (gossip_tx, gossip) = mpsc::channel(4000);
        let (chunks, crx) = broadcast::channel(64);
        let (blocks, brx) = broadcast::channel(64);
        let stores: HashMap<u32, _> = (1..=self.k.shards).map(|s| (s, self.c.shard(0, s).get_stores())).collect();
        let block_stores = self.c.block(0).stores();
        let net = self.net();
        let sd = test_helper::statsd_client();
        let task = if self.k.reader {
            let mut x = mp::ReadNodeMempool::new(rx, self.k.shards, stores, block_stores, gossip_tx, sd, net);
            self.rt().spawn(async move { x.run().await })
        } else {
            let config = mp::Config { enable_rate_limits: self.k.limits, allow_unlimited_mempool_size: self.k.room == 0, capacity_per_shard: if self.k.room == 0 { 1 } else { self.k.room }, ..Default::default() };
            let mut x = mp::Mempool::new(config, net, rx, ask_rx, self.k.shards, stores, block_stores, gossip_tx, crx, brx, sd);
            self.rt().spawn(async move { x.run().await })
        };
        self.live = Some(Live { add, ask, chunks, blocks, gossip, task });
        sim.log("the pool is open");
    }
    fn hand(&mut self, _sim: &mut Sim, m: MempoolMessage, src: u8) {
        // a client's message was looked at before it came here
        let src = if matches!(&m, MempoolMessage::UserMessage(u) if u.data.is_none()) { 1 } else { src };
        let (tx, rx) = oneshot::channel();
        // a peer waits for no answer
        let silent = matches!(&m, MempoolMessage::UserMessage(u) if src == 1 && u.hash[0] != 0xf0 && u.hash[0] % 2 == 0);
        let (tx, rx) = if silent { (None, None) } else { (Some(tx), Some(rx)) };
        self.live.as_ref().unwrap().add.try_send(mp::MempoolRequest::AddMessage(m.clone(), source(src), tx)).ok().expect("room in the channel");
        self.queue.push_back(Waiting::Add(m, src, rx));
    }
    /// Let it do all it can, then see that it did what it should.
    fn settle(&mut self, sim: &mut Sim) {
        self.rt().block_on(async { tokio::time::sleep(Duration::from_millis(8)).await });
        let mut heard = vec![];
        {
            let l = self.live.as_mut().unwrap();
            while let Ok(e) = l.gossip.try_recv() {
                if let GossipEvent::BroadcastMempoolMessage(m) = e {
                    heard.push(m);
                }
            }
            let gone = l.task.is_finished();
            sim.check("C01", "goes_on", !gone, || "the pool's task ended".into());
            if gone {
                self.dead = true;
                return;
            }
        }
        let mut forward = vec![];
        loop {
            let waiting: u64 = self.m.pools.values().map(|x| x.len() as u64).sum();
            if self.queue.is_empty() || !self.k.reader && self.k.room > 0 && waiting >= self.k.room {
                break;
            }
            for _ in 0..256 {
                let Some(q) = self.queue.pop_front() else { break };
                match q {
                    Waiting::Add(m, src, rx) => {
                        let told = match rx {
                            None => None,
                            Some(mut rx) => match rx.try_recv() {
                                Ok(x) => Some(x.is_ok()),
                                Err(_) => {
                                    sim.violate("C01", "answers", format!("{}: handed over while there was room, and no answer came", text_or(&m)));
                                    self.dead = true;
                                    return;
                                }
                            },
                        };
                        forward.extend(self.enter(sim, &m, src, told));
                    }
                    Waiting::Size(mut rx) => {
                        let want: BTreeMap<u32, u64> = self.m.pools.iter().map(|(s, x)| (*s, x.len() as u64)).filter(|x| x.1 > 0).collect();
                        match rx.try_recv() {
                            Ok(x) => {
                                let got: BTreeMap<u32, u64> = x.into_iter().filter(|x| x.1 > 0).collect();
                                sim.check("C01", "size", got == want, || format!("the pool says {got:?} wait; {want:?} should"));
                            }
                            Err(_) => sim.violate("C01", "answers", "the pool was asked its size while there was room, and did not say"),
                        }
                    }
                }
            }
        }
        if !self.queue.is_empty() {
            sim.count("probe.full");
        }
        // what is still queued must not have been taken in
        let mut early = None;
        for q in self.queue.iter_mut() {
            if let Waiting::Add(m, _, Some(rx)) = q {
                if rx.try_recv().is_ok() {
                    early = Some(text_or(m));
                }
            }
        }
        sim.check("C01", "room", early.is_none(), || format!("{}: answered while the pool was full", early.unwrap()));
        let show = |v: &[MempoolMessage]| v.iter().map(text_or).collect::<Vec<_>>().join(" | ").chars().take(400).collect::<String>();
        sim.check("C01", "forwarded", heard == forward, || format!("told its peers of {} [{}]; should have of {} [{}]", heard.len(), show(&heard), forward.len(), show(&forward)));
        let digest: Vec<String> = self.m.pools.iter().flat_map(|(s, x)| x.keys().map(move |k| format!("{s}{k:?}"))).collect();
        sim.state(digest.join("").as_bytes());
        if !sim.out.violations.is_empty() {
            self.dead = true;
        }
    }
    fn take(&mut self, sim: &mut Sim, s: u32, max: u32) -> Vec<MempoolMessage> {
        let mut poller = MempoolPoller { messages_request_tx: Some(self.live.as_ref().unwrap().ask.clone()), max_messages_per_block: max, network: self.net(), shard_id: s, statsd_client: test_helper::statsd_client() };
        let got = self.rt().block_on(poller.pull_messages(Duration::from_millis(50)));
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                sim.violate("C01", "goes_on", format!("shard {s} asked for messages and got {e}"));
                self.dead = true;
                return vec![];
            }
        };
        let mut want = vec![];
        while want.len() < max as usize {
            let Some((_, m)) = self.m.pools.get_mut(&s).and_then(|x| x.pop_first()) else { break };
            if self.sound(s, &m) {
                want.push(m);
            } else {
                sim.count("probe.spoiled_while_waiting");
            }
        }
        sim.add("op.handed_out", got.len() as u64);
        self.grouped(sim, s, &got);
        let show = |v: &[MempoolMessage]| v.iter().map(text_or).collect::<Vec<_>>().join(" | ").chars().take(600).collect::<String>();
        // who goes first among equals is nobody's business, what goes is
        let rank = |v: &[MempoolMessage]| v.iter().map(|m| (key_of(m).0, key_of(m).1)).collect::<Vec<_>>();
        let set = |v: &[MempoolMessage]| v.iter().map(key_of).collect::<BTreeSet<_>>();
        sim.check("C01", "order", rank(&got) == rank(&want), || format!("shard {s} was given {} [{}]; waiting first were {} [{}]", got.len(), show(&got), want.len(), show(&want)));
        sim.check("C01", "handed_out", set(&got) == set(&want) && got.len() == want.len(), || format!("shard {s} was given [{}]; what should be handed out is [{}]", show(&got), show(&want)));
        if !sim.out.violations.is_empty() {
            self.dead = true;
        } else {
            // there may be room again
            self.settle(sim);
        }
        got
    }
    /// A builder makes one transaction of each account's messages, of all of them and in their order.
    fn grouped(&mut self, sim: &mut Sim, s: u32, got: &[MempoolMessage]) {
        let txns = match MempoolPoller::create_transactions_from_mempool(got.to_vec()) {
            Ok(t) => t,
            Err(e) => return sim.violate("C01", "transactions", format!("shard {s}: no transactions: {e}")),
        };
        let fids: BTreeSet<u64> = txns.iter().map(|t| t.fid).collect();
        let mut bad = vec![];
        if fids.len() != txns.len() || txns.iter().any(|t| t.user_messages.is_empty() && t.system_messages.is_empty()) {
            bad.push("an account with two transactions or one with nothing in it".to_string());
        }
        let mut users: BTreeMap<u64, Vec<&p::Message>> = BTreeMap::new();
        let (mut events, mut names, mut blocks) = (vec![], vec![], vec![]);
        for m in got {
            match m {
                MempoolMessage::UserMessage(m) => users.entry(m.data.as_ref().unwrap().fid).or_default().push(m),
                MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => events.push((e.fid, e.encode_to_vec())),
                MempoolMessage::FnameTransfer(t) => names.push(t.encode_to_vec()),
                MempoolMessage::BlockEvent { message, .. } => blocks.push(message.encode_to_vec()),
            }
        }
        let (mut e2, mut n2, mut b2) = (vec![], vec![], vec![]);
        for t in &txns {
            let mine = users.remove(&t.fid).unwrap_or_default();
            if t.user_messages.iter().collect::<Vec<_>>() != mine {
                bad.push(format!("{} of {}'s {} messages, or not in their order", t.user_messages.len(), t.fid, mine.len()));
            }
            for v in &t.system_messages {
                match (&v.on_chain_event, &v.fname_transfer, &v.block_event) {
                    (Some(e), None, None) => e2.push((t.fid, e.encode_to_vec())),
                    (None, Some(f), None) => n2.push(f.encode_to_vec()),
                    (None, None, Some(b)) => b2.push(b.encode_to_vec()),
                    _ => bad.push("a system message of no one kind".into()),
                }
            }
        }
        if !users.is_empty() {
            bad.push(format!("nothing of accounts {:?}", users.keys()));
        }
        events.sort();
        e2.sort();
        for (a, b) in [(&mut names, &mut n2), (&mut blocks, &mut b2)] {
            a.sort();
            b.sort();
            if a != b {
                bad.push(format!("{} system messages of {}", b.len(), a.len()));
            }
        }
        if events != e2 {
            bad.push(format!("{} chain events of {}, or under another account", e2.len(), events.len()));
        }
        sim.check("C01", "transactions", bad.is_empty(), || format!("shard {s}: {} messages were made into {} transactions: {}", got.len(), txns.len(), bad.join("; ")));
    }
    fn build(&mut self, sim: &mut Sim, s: u32, msgs: Vec<MempoolMessage>) {
        if self.dead || !self.c.nodes[0].up {
            return;
        }
        let told = if s == 0 {
            let Some(sc) = self.c.propose_block(sim, 0, msgs) else { return };
            let b = self.c.block_of(&sc);
            self.c.decide_block(b.clone());
            self.c.apply(sim, 0, 0, "own");
            Told::Block(b)
        } else {
            let Some(sc) = self.c.propose(sim, 0, s, msgs) else { return };
            let c = self.c.chunk_of(s, &sc);
            self.c.decide(c.clone());
            self.c.apply(sim, 0, s, "own");
            Told::Chunk(c)
        };
        let wait = std::mem::take(&mut self.wait);
        if wait > 0 || !self.late.is_empty() {
            sim.count("fault.decision_heard_late");
            self.late.push_back((self.at + wait, s, told));
        } else {
            self.tell(sim, s, told);
        }
        self.elapsed += 1000;
        crate::sys::set_elapsed_ms(self.elapsed);
        self.settle(sim);
    }
    /// What was on its way arrives.
    fn news(&mut self, sim: &mut Sim, i: u64) {
        self.at = i;
        while self.late.front().is_some_and(|x| x.0 <= i) {
            let (_, s, t) = self.late.pop_front().unwrap();
            if self.live.is_some() {
                sim.log(format!("{i} the pool hears of a block of shard {s}"));
                self.tell(sim, s, t);
                self.settle(sim);
            }
        }
    }
    /// The pool hears what was decided.
    fn tell(&mut self, sim: &mut Sim, s: u32, told: Told) {
        let decided = match told {
            Told::Block(b) => {
                let t = b.transactions.clone();
                let _ = self.live.as_ref().unwrap().blocks.send(b);
                t
            }
            Told::Chunk(c) => {
                let t = c.transactions.clone();
                let _ = self.live.as_ref().unwrap().chunks.send(c);
                t
            }
        };
        if !self.k.reader {
            for t in &decided {
                for m in &t.user_messages {
                    let x = MempoolMessage::UserMessage(m.clone());
                    self.m.pools.get_mut(&s).map(|p| p.remove(&key_of(&x)));
                    if let Some(Body::LendStorageBody(b)) = m.data.as_ref().and_then(|d| d.body.as_ref()) {
                        for f in [m.data.as_ref().unwrap().fid, b.to_fid] {
                            self.m.live.remove(&f);
                            self.m.all.remove(&f);
                        }
                    }
                }
                for v in &t.system_messages {
                    let x = if let Some(e) = &v.on_chain_event {
                        if e.r#type() == p::OnChainEventType::EventTypeStorageRent {
                            self.m.live.remove(&e.fid);
                            self.m.all.remove(&e.fid);
                        }
                        MempoolMessage::OnchainEvent(e.clone())
                    } else if let Some(f) = &v.fname_transfer {
                        MempoolMessage::FnameTransfer(f.clone())
                    } else if let Some(b) = &v.block_event {
                        // a loan reaches the accounts' own shards by shard 0's events
                        if let Some(p::block_event_data::Body::MergeMessageEventBody(e)) = b.data.as_ref().and_then(|d| d.body.as_ref()) {
                            if let Some(d) = e.message.as_ref().and_then(|m| m.data.as_ref()) {
                                if let Some(Body::LendStorageBody(l)) = &d.body {
                                    sim.count("probe.loan_merged");
                                    for f in [d.fid, l.to_fid] {
                                        self.m.live.remove(&f);
                                        self.m.all.remove(&f);
                                    }
                                }
                            }
                        }
                        MempoolMessage::BlockEvent { for_shard: s, message: b.clone() }
                    } else {
                        continue;
                    };
                    self.m.pools.get_mut(&s).map(|p| p.remove(&key_of(&x)));
                }
            }
        }
    }
}
fn text_or(m: &MempoolMessage) -> String {
    match m {
        MempoolMessage::UserMessage(u) if u.data.is_none() => "a message without contents".into(),
        _ => text(m),
    }
}

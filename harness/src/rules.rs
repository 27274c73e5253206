//! The rules world: messages on the edge of every form rule, at times on the edge of every version
//! of the rules, on every network, judged by nodes whose own clocks say otherwise.
use crate::cluster::*;
use crate::core::*;
use crate::form::{self, At};
use crate::gen;
use crate::ledger::{dec, enc};
use alloy_signer::SignerSync;
use prost::Message as _;
use serde::{Deserialize, Serialize};
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations;
use snapchain::proto as p;
use snapchain::proto::FarcasterNetwork as Net;
use snapchain::storage::store::engine::MessageValidationError;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::StoreLimits;
use snapchain::version::version::EngineVersion;
use std::collections::BTreeMap;

pub struct Rules;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Knobs {
    net: i32,
    /// Unix seconds the run starts at
    base: u64,
    nodes: usize,
    fids: Vec<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
enum Op {
    Start { node: usize },
    Skew { node: usize, ms: i64 },
    Stop { node: usize },
    Clock { ms: u64 },
    /// ask the validator itself, on a node, about another time and place
    Probe { node: usize, m: String, net: i32, unix: u64, pro: bool },
    /// what storage do these rents, loans and debts make, somewhere and sometime
    Storage { node: usize, net: i32, unix: u64, rents: Vec<String>, lent: [u32; 3], borrowed: [u32; 3] },
    /// would the node accept it now, by its own clock
    Try { node: usize, m: String },
    Chain { by: usize, evs: Vec<String> },
    Fnames { by: usize, ts: Vec<String> },
    Block { by: usize, msgs: Vec<String> },
    Zero { by: usize, msgs: Vec<String> },
}

fn net(n: i32) -> Net {
    Net::try_from(n).unwrap()
}
fn name_key() -> alloy_signer_local::PrivateKeySigner {
    gen::eth("names", 0)
}

impl World for Rules {
    fn name(&self) -> &'static str {
        "rules"
    }
    fn generate(&self, seed: u64, focus: &str, thorough: bool) -> Case {
        let root = Rng::new(seed);
        let mut r = root.fork("plan");
        let nt = *r.pick(&[Net::Mainnet, Net::Mainnet, Net::Mainnet, Net::Testnet, Net::Testnet, Net::Devnet]);
        let mut edges: Vec<u64> = match nt {
            Net::Mainnet => form::MAINNET.iter().map(|x| x.0).collect(),
            Net::Testnet => form::TESTNET.iter().map(|x| x.0).collect(),
            _ => vec![],
        };
        edges.retain(|x| *x > 0);
        let near = |r: &mut Rng, edges: &[u64]| -> u64 {
            if edges.is_empty() || r.chance(100) {
                r.range(1_745_000_000, 1_790_000_000)
            } else {
                *r.pick(edges)
            }
        };
        let e = near(&mut r, &edges);
        let k = Knobs { net: nt as i32, base: e - r.below(60), nodes: r.range(2, 3) as usize, fids: (0..r.range(3, 5)).map(|i| 11 + i * 7).collect() };
        let mut plan: Vec<serde_json::Value> = vec![];
        let mut push = |o: Op| plan.push(serde_json::to_value(&o).unwrap());
        let mut t = 0u64;
        let skew = |r: &mut Rng| -> i64 {
            *r.pick(&[0, 0, -1000, 1000, 30_000, -30_000, 3_600_000, -3_600_000, 86_400_000, -86_400_000, 40 * 86_400_000, -40 * 86_400_000])
        };
        for n in 0..k.nodes {
            push(Op::Skew { node: n, ms: skew(&mut r) });
            push(Op::Start { node: n });
        }
        // an Ethereum history that began before any rule
        let mut nn = 0;
        let mut chain = |r: &mut Rng, k: &Knobs, f: u64, t: u64| -> Vec<String> {
            nn += 1;
            let u = k.base + t - r.below(1000);
            let mut v = vec![
                gen::id_register(f, gen::custody(f, 0).address().to_vec(), false, u, nn * 8),
                gen::rent(f, 1, u, nn * 8 + 1),
                gen::signer_event(f, gen::pubkey(f, 0), true, u, nn * 8 + 2),
            ];
            if r.chance(600) {
                let days = 30;
                let u = if r.chance(600) { u } else { k.base + t - days * 86_400 + r.below(60) };
                v.push(gen::tier(f, days, u, nn * 8 + 3));
            }
            v.iter().map(enc).collect()
        };
        for f in k.fids.clone() {
            let by = r.below(k.nodes as u64) as usize;
            let evs = chain(&mut r, &k, f, t);
            push(Op::Chain { by, evs });
        }
        let n = if thorough { 90 } else { 45 };
        let mut nid = 0;
        for _ in 0..n {
            let node = r.below(k.nodes as u64) as usize;
            let f = *r.pick(&k.fids);
            let key = gen::signer(f, 0);
            match r.below(100) {
                0..=29 => {
                    let pn = *r.pick(&[Net::Mainnet, Net::Mainnet, Net::Testnet, Net::Devnet]);
                    let edges: Vec<u64> = if pn == Net::Testnet { form::TESTNET[1..].iter().map(|x| x.0).collect() } else { form::MAINNET[1..].iter().map(|x| x.0).collect() };
                    let e = near(&mut r, &edges);
                    let unix = match r.below(4) {
                        0 => e,
                        1 => e - 1,
                        2 => e + r.below(10_000),
                        _ => r.range(1_745_000_000, 1_790_000_000),
                    };
                    for _ in 0..6 {
                        let m = form::boundary(&mut r, &form::Who { fid: f, key: &key, net: pn, unix });
                        let pro = r.chance(400);
                        push(Op::Probe { node, m: enc(&m), net: pn as i32, unix, pro });
                    }
                }
                30..=36 => {
                    let m = form::boundary(&mut r, &form::Who { fid: f, key: &key, net: nt, unix: k.base + t });
                    push(Op::Try { node, m: enc(&m) });
                }
                37..=69 => {
                    let msgs = (0..r.range(1, 6))
                        .map(|_| {
                            let f = *r.pick(&k.fids);
                            enc(&form::boundary(&mut r, &form::Who { fid: f, key: &gen::signer(f, 0), net: nt, unix: k.base + t }))
                        })
                        .collect();
                    t += 1;
                    push(Op::Block { by: node, msgs });
                }
                70..=77 => {
                    let msgs = (0..r.range(1, 5))
                        .map(|_| {
                            let f = *r.pick(&k.fids);
                            enc(&form::boundary(&mut r, &form::Who { fid: f, key: &gen::signer(f, 0), net: nt, unix: k.base + t }))
                        })
                        .collect();
                    t += 1;
                    push(Op::Zero { by: node, msgs });
                }
                78..=83 => {
                    let ts = (0..r.range(1, 3))
                        .map(|_| {
                            nid += 1;
                            enc(&transfer(&mut r, nid, f, k.base + t))
                        })
                        .collect();
                    t += 1;
                    push(Op::Fnames { by: node, ts });
                }
                84..=89 => {
                    let ms = *r.pick(&[1000u64, 5000, 30_000, 30_000, 600_000]);
                    t += ms / 1000;
                    push(Op::Clock { ms });
                }
                90..=94 => {
                    let ms = skew(&mut r);
                    push(Op::Skew { node, ms });
                }
                95 => {
                    let evs = chain(&mut r, &k, f, t);
                    t += 1;
                    push(Op::Chain { by: node, evs });
                }
                96..=97 => push(Op::Stop { node }),
                _ => push(Op::Start { node }),
            }
        }
        drop(push);
        if focus == "B02" {
            let mut r = root.fork("storage");
            let mut at = vec![];
            for _ in 0..n {
                let pn = *r.pick(&[Net::Mainnet, Net::Testnet, Net::Devnet]);
                const YEAR: u64 = 31_536_000;
                // the dates on which the kind or the life of a unit changes
                let edges = [1_724_889_600u64, 1_752_426_000, 1_752_685_200, 1_781_283_600, 1_782_147_600];
                let versions = if pn == Net::Testnet { &form::TESTNET[1..] } else { &form::MAINNET[1..] };
                let mut rents: Vec<(u64, u32)> = vec![];
                for _ in 0..r.range(0, 5) {
                    let t = match r.below(4) {
                        0 => *r.pick(&edges),
                        1 => *r.pick(&edges) - 1,
                        2 => r.range(1_690_000_000, 1_724_889_600),
                        _ => r.range(1_724_889_600, 1_800_000_000),
                    };
                    rents.push((t, r.range(1, 5) as u32));
                }
                let unix = match r.below(4) {
                    0 => r.pick(versions).0 - r.below(2),
                    1 if !rents.is_empty() => r.pick(&rents).0 + r.range(1, 4) * YEAR - r.below(2),
                    _ => r.range(1_745_000_000, 1_900_000_000),
                };
                let mut evs: Vec<String> = rents.iter().enumerate().map(|(i, x)| enc(&gen::rent(7_777, x.1, x.0, 5 + i as u64))).collect();
                if !evs.is_empty() && r.chance(200) {
                    let again = r.pick(&evs).clone();
                    evs.push(again);
                }
                let few = |r: &mut Rng| -> [u32; 3] { std::array::from_fn(|_| if r.chance(600) { 0 } else { r.below(6) as u32 }) };
                let (lent, borrowed) = (few(&mut r), few(&mut r));
                let node = r.below(k.nodes as u64) as usize;
                at.push((r.below(plan.len() as u64 + 1) as usize, serde_json::to_value(&Op::Storage { node, net: pn as i32, unix, rents: evs, lent, borrowed }).unwrap()));
            }
            at.sort_by(|a, b| b.0.cmp(&a.0));
            for (i, o) in at {
                plan.insert(i.max(2 * k.nodes), o);
            }
        }
        Case { world: "rules".into(), seed, knobs: serde_json::to_value(&k).unwrap(), plan }
    }
    fn run(&self, case: &Case, sim: &mut Sim) {
        let k: Knobs = serde_json::from_value(case.knobs.clone()).unwrap();
        crate::sys::set_base_unix_ms(k.base as i64 * 1000);
        let base = std::env::current_dir().unwrap();
        let mut c = Cluster::new(&base, k.nodes, 1, StoreLimits::default());
        c.net = net(k.net);
        c.fname_signer = Some(name_key().address());
        let mut w = Run { c, pro: BTreeMap::new(), elapsed: 0, dead: false };
        sim.log(format!("{:?} from {}", w.c.net, k.base));
        for (i, v) in case.plan.iter().enumerate() {
            let op: Op = serde_json::from_value(v.clone()).unwrap();
            w.step(sim, i, op);
            if w.dead || sim.violated("B16") || sim.violated("B02") || sim.violated("I01") {
                break;
            }
        }
        std::mem::forget(w);
    }
}

/// A name transfer, properly signed by the names service or not.
fn transfer(r: &mut Rng, id: u64, fid: u64, unix: u64) -> p::FnameTransfer {
    let mut t = gen::fname_transfer(id, &format!("name{id}"), fid, 0, unix, vec![9; 20]);
    let pr = t.proof.as_mut().unwrap();
    let how = r.below(14);
    match how {
        0 => pr.name.push(0xff),
        1 => pr.owner = vec![],
        _ => {}
    }
    let h = form::name_hash(pr);
    let key = if how == 2 { gen::eth("names", 1) } else { name_key() };
    pr.signature = key.sign_hash_sync(&h).unwrap().as_bytes().to_vec();
    match how {
        3 => pr.name.push(b'x'),
        4 => pr.owner[3] ^= 1,
        5 => pr.timestamp ^= 1,
        6 => pr.signature.push(0),
        7 => {
            pr.signature.pop();
        }
        8 => pr.signature[64] ^= 7,
        9 => pr.signature[20] ^= 1,
        10 => pr.signature[64] -= 27,
        11 => pr.signature = vec![],
        _ => {}
    }
    t
}

struct Run {
    c: Cluster,
    /// what each user bought: from when, for how long, Unix seconds
    pro: BTreeMap<u64, Vec<(u64, u64)>>,
    elapsed: u64,
    dead: bool,
}
fn kind_ok(m: &p::Message) -> bool {
    let d = m.data.as_ref().unwrap();
    d.body.as_ref().is_some_and(|b| form::kinds(b).contains(&d.r#type))
}
fn brief(m: &p::Message) -> String {
    let d = m.data.as_ref().unwrap();
    let mut s = format!("{:?}", d.body);
    if s.len() > 240 {
        let mut n = 240;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    format!("{} [type {} network {} {} bytes] {s}", msg_text(m), d.r#type, d.network, d.encoded_len())
}
/// How long what was bought by then lasts: each purchase extends the one before it.
fn until(bought: &[(u64, u64)], unix: u64) -> u64 {
    let mut v: Vec<_> = bought.iter().filter(|x| x.0 <= unix).copied().collect();
    v.sort();
    v.iter().fold(0, |end, x| end.max(x.0) + x.1)
}
/// Why a well-formed message may yet be refused by what is on record.
fn by_state(why: &str) -> bool {
    [
        "unknown fid",
        "invalid signer",
        "invalid message type",
        "fname is not registered for fid",
        "address is not part of any verification",
        "invalid ethereum address",
        "invalid solana address",
    ]
    .contains(&why)
}

/// A reaction of no type: the store, not the validator, is what refuses it.
fn unsettled(m: &p::Message) -> bool {
    matches!(&m.data.as_ref().unwrap().body, Some(p::message_data::Body::ReactionBody(b)) if b.r#type == 0)
}
/// Kinds whose custody signatures are judged only when merged.
fn by_authority(m: &p::Message) -> bool {
    matches!(m.data.as_ref().unwrap().r#type, 16 | 17)
}

impl Run {
    fn at(&self, ts: u64, fid: u64) -> At {
        let unix = ts + gen::FC_EPOCH;
        At { net: self.c.net, unix, pro: self.pro.get(&fid).is_some_and(|v| until(v, unix) >= unix) }
    }
    fn step(&mut self, sim: &mut Sim, i: usize, op: Op) {
        let up = |c: &Cluster, n: usize| n < c.nodes.len() && c.nodes[n].up;
        match op {
            Op::Start { node } => {
                if !up(&self.c, node) {
                    self.c.start(sim, node);
                    self.catch_up(sim, node);
                }
            }
            Op::Stop { node } => {
                if up(&self.c, node) {
                    sim.count("fault.process_killed");
                    sim.log(format!("{i} n{node} killed"));
                    self.c.down(node);
                }
            }
            Op::Skew { node, ms } => {
                sim.count("fault.clock_skew");
                self.c.nodes[node].skew = ms;
                sim.log(format!("{i} n{node} clock off by {ms}"));
            }
            Op::Clock { ms } => {
                self.elapsed += ms;
                crate::sys::set_elapsed_ms(self.elapsed);
            }
            Op::Storage { node, net: n, unix, rents, lent, borrowed } => {
                if !up(&self.c, node) {
                    return;
                }
                use p::StorageUnitType as T;
                use snapchain::storage::store::account::StorageSlot;
                sim.count("oracle.B02");
                sim.count("op.storage");
                const YEAR: u64 = 31_536_000;
                let (nt, v) = (net(n), form::version(net(n), unix));
                let main = nt == Net::Mainnet;
                let mut seen = std::collections::BTreeSet::new();
                let (mut own, mut ends) = ([0u32; 3], vec![]);
                let evs: Vec<p::OnChainEvent> = rents.iter().map(|x| dec(x)).collect();
                for e in &evs {
                    let first = seen.insert((e.block_number, e.log_index));
                    if v >= 21 && !first {
                        continue;
                    }
                    let t = e.block_timestamp;
                    let units = match &e.body {
                        Some(p::on_chain_event::Body::StorageRentEventBody(b)) => b.units,
                        _ => 0,
                    };
                    let more = if v >= 18 { 1 } else { 0 };
                    let (kind, years) = if t < 1_724_889_600 {
                        (0, 3 + more)
                    } else if t < if main { 1_752_685_200 } else { 1_752_426_000 } {
                        (1, 2 + more)
                    } else if t < if main { 1_782_147_600 } else { 1_781_283_600 } {
                        (2, 1 + more)
                    } else {
                        (2, 1)
                    };
                    if unix < t + years * YEAR {
                        own[kind] += units;
                        ends.push(t + years * YEAR);
                    }
                }
                let alive = !ends.is_empty();
                let want: [u32; 3] = std::array::from_fn(|i| if alive { own[i].saturating_sub(lent[i]) + borrowed[i] } else { borrowed[i] });
                let until = ends.iter().min().copied().unwrap_or(u32::MAX as u64);
                let ft = FarcasterTime::from_unix_seconds(unix);
                let slot = |u: [u32; 3]| StorageSlot::new(u[0], u[1], u[2], u32::MAX);
                let got = self.c.on(sim, node, "storage in force", |c| {
                    c.shard(node, 1).get_stores().onchain_event_store.get_storage_slot_for_fid_at(7_777, nt, EngineVersion::version_for(&ft, nt), &evs, &slot(lent), &slot(borrowed), unix).map_err(|e| e.to_string())
                });
                let got = match got {
                    Ran::Done(g) => g,
                    Ran::Down => return,
                };
                let text = || format!("{nt:?} at {unix}, rents {:?}, lent {lent:?}, borrowed {borrowed:?}", evs.iter().map(|e| e.block_timestamp).collect::<Vec<_>>());
                match got {
                    Err(e) => sim.violate("B02", "storage_in_force", format!("{}: {e}", text())),
                    Ok(g) => {
                        let units = [g.units_for(T::UnitTypeLegacy), g.units_for(T::UnitType2024), g.units_for(T::UnitType2025)];
                        sim.check("B02", "storage_in_force", units == want && g.invalidate_at as u64 == until, || format!("{}: {units:?} until {}; by the dates they were bought it is {want:?} until {until}", text(), g.invalidate_at));
                        use p::StoreType as S;
                        // what one unit of each kind holds
                        for (st, per) in [(S::Casts, [5000, 2000, 100]), (S::Links, [2500, 1000, 200]), (S::Reactions, [2500, 1000, 200]), (S::UserData, [50, 50, 25]), (S::Verifications, [25, 25, 5]), (S::UsernameProofs, [5, 5, 2]), (S::StorageLends, [1, 1, 1])] {
                            let m = StoreLimits::default().max_messages(&g, st);
                            let w: u32 = (0..3).map(|i| per[i] * want[i]).sum();
                            sim.check("B02", "room_of_units", m == w, || format!("{}: {units:?} units hold {m} {st:?}; {w} by what a unit of each kind holds", text()));
                        }
                    }
                }
            }
            Op::Probe { node, m, net: n, unix, pro } => {
                let m: p::Message = dec(&m);
                let at = At { net: net(n), unix, pro };
                let want = form::judge(&m, &at);
                let ft = FarcasterTime::from_unix_seconds(unix);
                let v = EngineVersion::version_for(&ft, at.net);
                sim.check("I01", "schedule", v as u32 == form::version(at.net, unix), || format!("{:?} at {unix}: rules version {v:?}, which is not what the schedule fixed (V{})", at.net, form::version(at.net, unix)));
                let got = match self.c.on(sim, node, "validate message", |_| validations::message::validate_message(&m, at.net, pro, &ft, v)) {
                    Ran::Done(g) => g,
                    Ran::Down => return,
                };
                sim.count("op.probe");
                sim.count(if want.is_ok() { "reach.well_formed" } else { "reach.ill_formed" });
                sim.log(format!("{i} probe {:?} at {unix} pro {pro}: {want:?} {got:?}", at.net));
                if !unsettled(&m) {
                    self.compare(sim, &m, &at, want, got.is_ok(), format!("{got:?}"));
                }
            }
            Op::Try { node, m } => {
                if !up(&self.c, node) {
                    return;
                }
                let m: p::Message = dec(&m);
                let unix = ((crate::sys::true_unix_ms() + self.c.nodes[node].skew) / 1000) as u64;
                let at = self.at(unix - gen::FC_EPOCH, m.fid());
                let want = form::judge(&m, &at);
                let got = match self.c.on(sim, node, "simulate", |c| c.shard(node, 1).simulate_message(&m)) {
                    Ran::Done(g) => g,
                    Ran::Down => return,
                };
                sim.log(format!("{i} try n{node}: {want:?} {got:?}"));
                let form_error = matches!(got, Err(MessageValidationError::MessageValidationError(_)));
                if (got.is_ok() || form_error && !by_authority(&m)) && !unsettled(&m) {
                    self.compare(sim, &m, &at, want, got.is_ok(), format!("{got:?}"));
                }
            }
            Op::Chain { by, evs } => {
                let evs: Vec<p::OnChainEvent> = evs.iter().map(|s| dec(s)).collect();
                let msgs = evs
                    .iter()
                    .map(|e| MempoolMessage::OnchainEvent(e.clone()))
                    .collect();
                if let Some((c, _)) = self.block(sim, i, by, msgs) {
                    let h = c.header.unwrap();
                    // pro began with the fifth version
                    if form::version(self.c.net, h.timestamp + gen::FC_EPOCH) >= 5 {
                        for e in &evs {
                            if let Some(p::on_chain_event::Body::TierPurchaseEventBody(b)) = &e.body {
                                self.pro.entry(e.fid).or_default().push((e.block_timestamp, b.for_days * 86_400));
                            }
                        }
                    }
                }
                let msgs = evs.into_iter().map(MempoolMessage::OnchainEvent).collect();
                self.zero(sim, i, by, msgs);
            }
            Op::Fnames { by, ts } => {
                let ts: Vec<p::FnameTransfer> = ts.iter().map(|s| dec(s)).collect();
                let msgs = ts.iter().map(|t| MempoolMessage::FnameTransfer(t.clone())).collect();
                if let Some((_, evs)) = self.block(sim, i, by, msgs) {
                    for t in &ts {
                        let pr = t.proof.as_ref().unwrap();
                        let want = form::transfer(t, self.c.net, name_key().address().as_slice());
                        let got = evs.iter().any(|e| matches!(&e.body, Some(p::hub_event::Body::MergeUsernameProofBody(b)) if b.username_proof.as_ref() == Some(pr)));
                        sim.count(if want.is_ok() { "reach.name_signed" } else { "reach.name_not_signed" });
                        if got != want.is_ok() {
                            sim.violate("B16", "name_transfer", format!("{:?}: name transfer {} of {:?} is {want:?}, yet the block's effect was: merged {got}", self.c.net, t.id, String::from_utf8_lossy(&pr.name)));
                        }
                        sim.count("oracle.B16");
                    }
                }
            }
            Op::Block { by, msgs } => {
                let msgs: Vec<p::Message> = msgs.iter().map(|s| dec(s)).collect();
                let v = msgs.into_iter().map(MempoolMessage::UserMessage).collect();
                if let Some((c, evs)) = self.block(sim, i, by, v) {
                    self.fates(sim, &c, &evs);
                }
            }
            Op::Zero { by, msgs } => {
                let msgs: Vec<p::Message> = msgs.iter().map(|s| dec(s)).collect();
                let v = msgs.into_iter().map(MempoolMessage::UserMessage).collect();
                self.zero(sim, i, by, v);
            }
        }
    }
    fn compare(&mut self, sim: &mut Sim, m: &p::Message, at: &At, want: Result<(), &'static str>, got: bool, said: String) {
        sim.count("oracle.B16");
        if let Err(w) = want {
            sim.count(&format!("edge.{w}"));
        }
        let where_ = format!("{:?} at {} (V{}){}", at.net, at.unix, form::version(at.net, at.unix), if at.pro { " pro" } else { "" });
        match (want, got) {
            (Ok(()), false) => sim.violate("B16", "refused_well_formed", format!("{where_}: refused ({said}) though well formed: {}", brief(m))),
            (Err(w), true) => sim.violate("B16", "accepted_ill_formed", format!("{where_}: accepted though ill formed ({w}): {}", brief(m))),
            _ => {}
        }
    }
    /// One block of the data shard: proposed by one node, voted on by all, applied by all.
    fn block(&mut self, sim: &mut Sim, i: usize, by: usize, msgs: Vec<MempoolMessage>) -> Option<(p::ShardChunk, Vec<p::HubEvent>)> {
        if !self.c.nodes.get(by).is_some_and(|n| n.up) {
            return None;
        }
        self.catch_up(sim, by);
        let n = msgs.len();
        let sc = self.c.propose(sim, by, 1, msgs)?;
        let chunk = self.c.chunk_of(1, &sc);
        let ts = chunk.header.as_ref().unwrap().timestamp;
        sim.log(format!("{i} n{by} proposes {n} in s1 at {}", ts + gen::FC_EPOCH));
        sim.count("op.block");
        let up: Vec<usize> = (0..self.c.nodes.len()).filter(|x| self.c.nodes[*x].up).collect();
        for x in &up {
            self.catch_up(sim, *x);
            let ok = self.c.validate(sim, *x, &chunk)?;
            sim.check("I01", "validators_disagree", ok, || {
                format!("node {x} (clock off by {} ms) refuses the block node {by} (clock off by {} ms) proposed at {}", self.c.nodes[*x].skew, self.c.nodes[by].skew, ts + gen::FC_EPOCH)
            });
        }
        self.c.decide(chunk.clone());
        let mut first = None;
        for x in &up {
            let e = self.c.apply(sim, *x, 1, "live")?;
            first.get_or_insert(e);
        }
        Some((chunk, first?))
    }
    fn zero(&mut self, sim: &mut Sim, i: usize, by: usize, msgs: Vec<MempoolMessage>) {
        if !self.c.nodes.get(by).is_some_and(|n| n.up) {
            return;
        }
        self.catch_up(sim, by);
        let sc = match self.c.propose_block(sim, by, msgs) {
            Some(s) => s,
            None => return,
        };
        let b = self.c.block_of(&sc);
        let ts = b.header.as_ref().unwrap().timestamp;
        sim.log(format!("{i} n{by} proposes a block at {}", ts + gen::FC_EPOCH));
        let up: Vec<usize> = (0..self.c.nodes.len()).filter(|x| self.c.nodes[*x].up).collect();
        for x in &up {
            self.catch_up(sim, *x);
            match self.c.validate_block(sim, *x, &b) {
                Some(ok) => sim.check("I01", "validators_disagree", ok, || {
                    format!("node {x} (clock off by {} ms) refuses the block node {by} (clock off by {} ms) proposed at {}", self.c.nodes[*x].skew, self.c.nodes[by].skew, ts + gen::FC_EPOCH)
                }),
                None => return,
            }
        }
        for e in &b.events {
            if let Some(m) = crate::ledger::event_message(e) {
                let at = self.at(ts, m.fid());
                let want = form::judge(&m, &at);
                sim.count("reach.zero_merged");
                self.compare(sim, &m, &at, want, true, "merged".into());
            }
        }
        self.c.decide_block(b);
        for x in &up {
            if self.c.apply(sim, *x, 0, "live").is_none() {
                return;
            }
        }
    }
    fn catch_up(&mut self, sim: &mut Sim, n: usize) {
        for s in 0..=1 {
            while self.c.nodes[n].up && !self.c.at_head(n, s) {
                if self.c.apply(sim, n, s, "replay").is_none() {
                    break;
                }
            }
        }
    }
    fn fates(&mut self, sim: &mut Sim, c: &p::ShardChunk, evs: &[p::HubEvent]) {
        let ts = c.header.as_ref().unwrap().timestamp;
        for t in &c.transactions {
            for m in &t.user_messages {
                let at = self.at(ts, m.fid());
                let want = form::judge(m, &at);
                let same = |x: &Option<p::Message>| x.as_ref() == Some(m);
                let merged = evs.iter().any(|e| matches!(&e.body, Some(p::hub_event::Body::MergeMessageBody(b)) if same(&b.message)));
                let failed = evs.iter().find_map(|e| match &e.body {
                    Some(p::hub_event::Body::MergeFailure(b)) if same(&b.message) => Some(b.clone()),
                    _ => None,
                });
                sim.count(if merged { "reach.merged" } else { "reach.not_merged" });
                if merged {
                    self.compare(sim, m, &at, want, true, "merged".into());
                    sim.check("B16", "kind_and_body_differ", kind_ok(m), || format!("stored though its kind and body differ: {}", brief(m)));
                } else if let Some(f) = failed {
                    if f.code == "bad_request.validation_failure" && !by_state(&f.reason) && kind_ok(m) && !by_authority(m) {
                        self.compare(sim, m, &at, want, false, f.reason);
                    }
                }
            }
        }
    }
}

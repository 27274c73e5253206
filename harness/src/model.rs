//! A small executable reference of what the ledger's state must be after a sequence of
//! committed transactions: maps and comparisons, no storage, no indexes, no batches.
use crate::gen;
use snapchain::proto as p;
use snapchain::proto::message_data::Body;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum St {
    Cast,
    Link,
    React,
    Data,
    Proof,
    Verif,
}
pub const STORES: [St; 6] = [St::Cast, St::Link, St::React, St::Data, St::Proof, St::Verif];

pub fn store_of(m: &p::Message) -> Option<St> {
    use p::MessageType::*;
    Some(match m.data.as_ref()?.r#type() {
        CastAdd | CastRemove => St::Cast,
        LinkAdd | LinkRemove | LinkCompactState => St::Link,
        ReactionAdd | ReactionRemove => St::React,
        UserDataAdd => St::Data,
        UsernameProof => St::Proof,
        VerificationAddEthAddress | VerificationRemove => St::Verif,
        _ => return Option::None,
    })
}
pub fn fid(m: &p::Message) -> u64 {
    m.data.as_ref().unwrap().fid
}
pub fn ts(m: &p::Message) -> u32 {
    m.data.as_ref().unwrap().timestamp
}
pub fn body(m: &p::Message) -> &Body {
    m.data.as_ref().unwrap().body.as_ref().unwrap()
}
pub fn is_remove(m: &p::Message) -> bool {
    use p::MessageType::*;
    matches!(m.data.as_ref().unwrap().r#type(), CastRemove | LinkRemove | ReactionRemove | VerificationRemove)
}
pub fn is_compact(m: &p::Message) -> bool {
    m.data.as_ref().unwrap().r#type() == p::MessageType::LinkCompactState
}
/// What a message is about: two messages with one key compete.
pub fn key(m: &p::Message) -> Vec<u8> {
    match body(m) {
        Body::CastAddBody(_) => m.hash.clone(),
        Body::CastRemoveBody(b) => b.target_hash.clone(),
        Body::LinkBody(b) => format!("{}/{:?}", b.r#type, b.target).into_bytes(),
        Body::LinkCompactStateBody(b) => b.r#type.clone().into_bytes(),
        Body::ReactionBody(b) => format!("{}/{:?}", b.r#type, b.target).into_bytes(),
        Body::UserDataBody(b) => vec![b.r#type as u8],
        Body::VerificationAddAddressBody(b) => b.address.clone(),
        Body::VerificationRemoveBody(b) => b.address.clone(),
        Body::UsernameProofBody(b) => b.name.clone(),
        _ => vec![],
    }
}
/// The store's order of two messages about one thing.
pub fn beats(a: &p::Message, b: &p::Message) -> std::cmp::Ordering {
    let (ra, rb) = (is_remove(a), is_remove(b));
    if store_of(a) == Some(St::Cast) && ra != rb {
        return ra.cmp(&rb);
    }
    (ts(a), ra, &a.hash).cmp(&(ts(b), rb, &b.hash))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why {
    Invalid,
    Signer,
    NotOwner,
    NoFid,
    Conflict,
    Compacted,
    Wrong,
    Quota,
}

#[derive(Clone, Default)]
pub struct FidM {
    /// storage bought: units by kind of unit (legacy, 2024, 2025) and when they lapse
    pub rents: Vec<(usize, u32, u64)>,
    pub registered: bool,
    pub custody: Vec<u8>,
    pub signers: BTreeMap<Vec<u8>, bool>,
    pub rows: BTreeMap<(St, Vec<u8>), p::Message>,
    pub compacts: BTreeMap<String, p::Message>,
    pub onchain: BTreeMap<Vec<u8>, p::OnChainEvent>,
}
impl FidM {
    /// Storage units by kind that are in force at a time.
    pub fn units(&self, now: u64) -> [u32; 3] {
        let mut u = [0; 3];
        for (k, n, end) in &self.rents {
            if now < *end {
                u[*k] += n;
            }
        }
        u
    }
    pub fn paid(&self, now: u64) -> bool {
        self.units(now) != [0; 3]
    }
    pub fn count(&self, s: St) -> u32 {
        (self.rows.keys().filter(|k| k.0 == s).count() + if s == St::Link { self.compacts.len() } else { 0 }) as u32
    }
    /// How many messages of each kind a store holds.
    pub fn kinds(&self, s: St) -> BTreeMap<i32, u32> {
        let mut out = BTreeMap::new();
        for m in self.all(s).into_iter().chain(self.compacts.values().filter(|_| s == St::Link)) {
            *out.entry(m.data.as_ref().unwrap().r#type).or_insert(0) += 1;
        }
        out
    }
    pub fn all(&self, s: St) -> Vec<&p::Message> {
        self.rows.iter().filter(|(k, _)| k.0 == s).map(|(_, m)| m).collect()
    }
}

/// A shard as a block found it.
#[derive(Default)]
pub struct Before {
    pub rows: BTreeSet<Vec<u8>>,
    pub units: BTreeMap<u64, [u32; 3]>,
    pub kinds: BTreeMap<(u64, St, i32), u32>,
}

#[derive(Clone, Default)]
pub struct ShardM {
    pub fids: BTreeMap<u64, FidM>,
    pub fnames: BTreeMap<Vec<u8>, p::UserNameProof>,
    /// fnames whose proof was replaced by a later proof for the same owner
    pub refreshed: BTreeSet<Vec<u8>>,
    pub seq: u64,
    /// every name an account ever held
    pub held: BTreeMap<u64, BTreeSet<Vec<u8>>>,
    /// why a message that was once accepted is no longer there
    pub gone: HashMap<Vec<u8>, &'static str>,
    /// messages one unit allows, by store and kind of unit
    pub limit: HashMap<St, [u32; 3]>,
    pub unlimited: bool,
    /// the time of the last block
    pub now: u64,
    pub gasless: BTreeMap<(u64, Vec<u8>), Gasless>,
}
#[derive(Clone, Debug)]
pub struct Gasless {
    pub scopes: Vec<i32>,
    pub ttl: u32,
    pub last_used: u32,
    pub nonce: u32,
    pub request_fid: u64,
    pub added_ts: u32,
}

pub fn eth_text(a: &[u8]) -> String {
    alloy_primitives::Address::from_slice(a).to_checksum(None)
}

impl ShardM {
    pub fn fid(&mut self, f: u64) -> &mut FidM {
        self.fids.entry(f).or_default()
    }
    pub fn name_owner(&self, name: &str) -> Option<u64> {
        if name.ends_with(".eth") {
            for (f, m) in &self.fids {
                if m.rows.contains_key(&(St::Proof, name.as_bytes().to_vec())) {
                    return Some(*f);
                }
            }
            None
        } else {
            self.fnames.get(name.as_bytes()).filter(|x| x.fid != 0).map(|x| x.fid)
        }
    }

    /// Whether a message, already known to be well formed and correctly signed, may enter.
    pub fn admit(&self, m: &p::Message, block_ts: u64) -> Result<(), Why> {
        let f = match self.fids.get(&fid(m)) {
            Some(f) if f.registered => f,
            _ => return Err(Why::NoFid),
        };
        let onchain = f.signers.get(&m.signer).copied().unwrap_or(false);
        if !onchain {
            match self.gasless.get(&(fid(m), m.signer.clone())) {
                Some(g) if g.scopes.contains(&m.data.as_ref().unwrap().r#type) => {
                    if (g.last_used as u64) + (g.ttl as u64) < block_ts {
                        return Err(Why::Signer);
                    }
                }
                _ => return Err(Why::Signer),
            }
        }
        if let Body::UserDataBody(b) = body(m) {
            if b.r#type == p::UserDataType::Username as i32 && !b.value.is_empty() && self.name_owner(&b.value) != Some(fid(m)) {
                return Err(Why::NotOwner);
            }
            if b.r#type == p::UserDataType::UserDataPrimaryAddressEthereum as i32 && !b.value.is_empty() {
                let has = f.all(St::Verif).iter().any(|v| match body(v) {
                    Body::VerificationAddAddressBody(a) => a.protocol == p::Protocol::Ethereum as i32 && eth_text(&a.address) == b.value,
                    _ => false,
                });
                if !has {
                    return Err(Why::NotOwner);
                }
            }
        }
        Ok(())
    }

    /// Merge a message: what it displaces, or why it cannot enter.
    pub fn merge(&mut self, m: &p::Message, forced: bool) -> Result<Vec<p::Message>, Why> {
        let s = store_of(m).ok_or(Why::Wrong)?;
        if s == St::Proof {
            return self.merge_proof(m);
        }
        let f = self.fid(fid(m));
        let mut out = vec![];
        if is_compact(m) {
            let (ty, keep) = match body(m) {
                Body::LinkCompactStateBody(b) => (b.r#type.clone(), b.target_fids.clone()),
                _ => return Err(Why::Wrong),
            };
            if let Some(old) = f.compacts.get(&ty) {
                if ts(m) <= ts(old) {
                    return Err(Why::Conflict);
                }
                out.push(old.clone());
            }
            let dead: Vec<_> = f
                .rows
                .iter()
                .filter(|((s, _), r)| {
                    *s == St::Link
                        && ts(r) <= ts(m)
                        && match body(r) {
                            Body::LinkBody(b) => {
                                b.r#type == ty
                                    && (is_remove(r)
                                        || match b.target {
                                            Some(p::link_body::Target::TargetFid(t)) => !keep.contains(&t),
                                            None => false,
                                        })
                            }
                            _ => false,
                        }
                })
                .map(|(k, _)| k.clone())
                .collect();
            for k in dead {
                out.push(f.rows.remove(&k).unwrap());
            }
            f.compacts.insert(ty, m.clone());
            for o in &out {
                self.gone.insert(o.hash.clone(), "compacted");
            }
            self.gone.remove(&m.hash);
            return Ok(out);
        }
        if s == St::Link {
            if let Body::LinkBody(b) = body(m) {
                if let Some(c) = f.compacts.get(&b.r#type) {
                    let keep = match body(c) {
                        Body::LinkCompactStateBody(x) => x.target_fids.clone(),
                        _ => vec![],
                    };
                    let t = match b.target {
                        Some(p::link_body::Target::TargetFid(t)) => t,
                        None => 0,
                    };
                    if ts(m) < ts(c) && (is_remove(m) || !keep.contains(&t)) {
                        return Err(Why::Compacted);
                    }
                }
            }
        }
        let k = (s, key(m));
        if let Some(old) = f.rows.get(&k) {
            if forced {
                if old.hash == m.hash {
                    return Ok(vec![]);
                }
            } else if beats(old, m) != std::cmp::Ordering::Less {
                return Err(Why::Conflict);
            }
            out.push(old.clone());
        }
        f.rows.insert(k, m.clone());
        for o in &out {
            self.gone.insert(o.hash.clone(), "superseded");
        }
        self.gone.remove(&m.hash);
        Ok(out)
    }
    fn merge_proof(&mut self, m: &p::Message) -> Result<Vec<p::Message>, Why> {
        let k = (St::Proof, key(m));
        let owner = self.fids.iter().find(|(_, f)| f.rows.contains_key(&k)).map(|(f, _)| *f);
        let mut out = vec![];
        if let Some(o) = owner {
            let old = self.fids[&o].rows[&k].clone();
            if beats(&old, m) != std::cmp::Ordering::Less {
                return Err(Why::Conflict);
            }
            self.fid(o).rows.remove(&k);
            self.gone.insert(old.hash.clone(), "superseded");
            out.push(old);
        }
        self.fid(fid(m)).rows.insert(k, m.clone());
        self.gone.remove(&m.hash);
        Ok(out)
    }
    pub fn drop_row(&mut self, f: u64, k: &(St, Vec<u8>), why: &'static str) {
        if let Some(m) = self.fid(f).rows.remove(k) {
            self.gone.insert(m.hash.clone(), why);
        }
    }
    /// Enforce the storage limit of one store of one fid: the oldest of what was stored before the block give way,
    /// measured by the storage the account held when the block began.
    /// `heard`: what the system reported pruned.  Returns rows it pruned although the store was within its limit,
    /// where the one known miscount explains it: a kind of message whose last row went within the block still counts.
    pub fn prune(&mut self, f: u64, s: St, before: &Before, heard: Option<&std::collections::BTreeSet<Vec<u8>>>) -> Vec<p::Message> {
        if self.unlimited {
            return vec![];
        }
        let max = self.max(s, before.units.get(&f).copied().unwrap_or_default());
        while self.fid(f).count(s) > max {
            let oldest = self.fid(f).rows.iter().filter(|(k, m)| k.0 == s && before.rows.contains(&m.hash)).min_by_key(|(_, m)| (ts(m), m.hash.clone())).map(|(k, _)| k.clone());
            match oldest {
                Some(k) => self.drop_row(f, &k, "pruned"),
                None => break,
            }
        }
        let now = self.fid(f).kinds(s);
        let stale: u32 = before.kinds.iter().filter(|((g, t, k), _)| *g == f && *t == s && !now.contains_key(k)).map(|(_, n)| *n).sum();
        let mut out = vec![];
        if stale > 0 && self.fid(f).count(s) + stale > max {
            let rows: Vec<_> = self.fid(f).rows.iter().filter(|(k, m)| k.0 == s && before.rows.contains(&m.hash)).map(|(k, m)| (k.clone(), m.clone())).collect();
            for (k, m) in rows {
                if heard.map_or(true, |h| h.contains(&m.hash)) {
                    self.drop_row(f, &k, "pruned");
                    out.push(m);
                }
            }
        }
        out
    }
    /// Messages a store may hold with these units.
    pub fn max(&self, s: St, units: [u32; 3]) -> u32 {
        let per = self.limit.get(&s).copied().unwrap_or_default();
        (0..3).map(|i| per[i] * units[i]).sum()
    }
    pub fn room(&self, f: u64, s: St) -> u32 {
        self.max(s, self.fids.get(&f).map_or([0; 3], |m| m.units(self.now)))
    }
    /// `now`: the time of the block about to be applied.
    pub fn before(&self, now: u64) -> Before {
        let mut b = Before::default();
        for (f, m) in &self.fids {
            b.units.insert(*f, m.units(now));
            b.rows.extend(m.rows.values().map(|r| r.hash.clone()));
            for s in STORES {
                for (k, n) in m.kinds(s) {
                    b.kinds.insert((*f, s, k), n);
                }
            }
        }
        b
    }
    pub fn revoke_signer(&mut self, f: u64, key: &[u8]) {
        let dead: Vec<_> = self.fid(f).rows.iter().filter(|(k, m)| k.0 != St::Proof && m.signer == key).map(|(k, _)| k.clone()).collect();
        for k in dead {
            self.drop_row(f, &k, "revoked");
        }
        let cs: Vec<String> = self.fid(f).compacts.iter().filter(|(_, m)| m.signer == key).map(|(k, _)| k.clone()).collect();
        for c in cs {
            let m = self.fid(f).compacts.remove(&c).unwrap();
            self.gone.insert(m.hash, "revoked");
        }
    }
    pub fn onchain_key(e: &p::OnChainEvent) -> Vec<u8> {
        let mut k = vec![e.r#type as u8];
        k.extend_from_slice(&e.transaction_hash);
        k.extend_from_slice(&e.log_index.to_be_bytes());
        k
    }
    /// Returns whether it was new, and a signer it removed.
    pub fn onchain(&mut self, e: &p::OnChainEvent) -> (bool, Option<Vec<u8>>) {
        let k = Self::onchain_key(e);
        let f = self.fid(e.fid);
        if f.onchain.contains_key(&k) {
            return (false, None);
        }
        f.onchain.insert(k, e.clone());
        match e.body.as_ref().unwrap() {
            p::on_chain_event::Body::SignerEventBody(s) => {
                let add = s.event_type == p::SignerEventType::Add as i32;
                f.signers.insert(s.key.clone(), add);
                if !add {
                    return (true, Some(s.key.clone()));
                }
            }
            p::on_chain_event::Body::IdRegisterEventBody(b) => {
                f.registered = true;
                f.custody = b.to.clone();
            }
            p::on_chain_event::Body::StorageRentEventBody(b) => f.rents.push(rent(e.block_timestamp, b.units)),
            _ => {}
        }
        (true, None)
    }
    /// A registry transfer; true if the proof entered.
    pub fn fname(&mut self, t: &p::FnameTransfer) -> bool {
        let pr = t.proof.as_ref().unwrap();
        let old = self.fnames.get(&pr.name).cloned();
        let ok = match &old {
            Some(o) => (o.timestamp, &o.signature) < (pr.timestamp, &pr.signature),
            None => pr.fid != 0,
        };
        if ok {
            if let Some(o) = &old {
                if o.fid == pr.fid {
                    self.refreshed.insert(pr.name.clone());
                } else {
                    self.refreshed.remove(&pr.name);
                }
            }
            self.held.entry(pr.fid).or_default().insert(pr.name.clone());
            self.fnames.insert(pr.name.clone(), pr.clone());
        }
        ok
    }
}

/// A unit's kind and life go by when it was bought (Devnet dates, the newest rules).
pub fn rent(bought: u64, units: u32) -> (usize, u32, u64) {
    const YEAR: u64 = 31_536_000;
    let (kind, years) = match bought {
        0..=1_724_889_599 => (0, 4),
        1_724_889_600..=1_752_425_999 => (1, 3),
        1_752_426_000..=1_781_283_599 => (2, 2),
        _ => (2, 1),
    };
    (kind, units, bought + years * YEAR)
}

pub fn sort_users(v: &[p::Message]) -> Vec<p::Message> {
    let mut v = v.to_vec();
    v.sort_by_key(|m| {
        let pr = match m.data.as_ref().unwrap().r#type() {
            p::MessageType::VerificationAddEthAddress => 1,
            p::MessageType::UsernameProof => 2,
            p::MessageType::UserDataAdd => match body(m) {
                Body::UserDataBody(b)
                    if b.r#type == p::UserDataType::Username as i32
                        || b.r#type == p::UserDataType::UserDataPrimaryAddressEthereum as i32
                        || b.r#type == p::UserDataType::UserDataPrimaryAddressSolana as i32 =>
                {
                    3
                }
                _ => 4,
            },
            _ => 5,
        };
        (pr, ts(m))
    });
    v
}
#[allow(dead_code)]
pub fn ft_base() -> u32 {
    (crate::sys::BASE_UNIX - gen::FC_EPOCH) as u32
}
impl ShardM {
    /// Whether the account never held a second name: the by-account record then has one meaning.
    pub fn gone_names(&self, f: u64) -> bool {
        self.held.get(&f).map_or(0, |s| s.len()) <= 1
    }
}

//! A compact Tendermint with the message interface of malachite's consensus actor.
use super::host::{HostMsg, HostRef, LocallyProposedValue, VoteExtensions};
use super::network::{NetworkEvent, NetworkMsg, NetworkRef};
use super::sync::{Msg as SyncMsg, SyncRef};
use super::util::events::TxEvent;
use super::util::streaming::StreamMessage;
use super::wal::{WalMsg, WalMsgFor, WalRef};
use crate::codec::Codec;
pub use crate::config::TimeoutConfig;
pub use crate::core_consensus::Params as ConsensusParams;
use crate::core_consensus::{ProposedValue, SignedConsensusMsg};
use crate::metrics::Metrics;
use crate::sync::Response;
use informalsystems_malachitebft_core_types::*;
use ractor::{Actor, ActorProcessingErr, ActorRef};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::time::Duration;

pub trait ConsensusCodec<Ctx: Context>: Codec<SignedConsensusMsg<Ctx>> + Codec<StreamMessage<Ctx::ProposalPart>> {}
impl<Ctx: Context, C> ConsensusCodec<Ctx> for C where
    C: Codec<SignedConsensusMsg<Ctx>> + Codec<StreamMessage<Ctx::ProposalPart>>
{
}

/// What a validator has on disk about the height it is working on (malachite's
/// WAL, which is fsynced before a message leaves the node).
pub mod durable {
    use std::any::Any;
    use std::collections::HashMap;
    use std::path::{Path, PathBuf};
    use std::sync::Mutex;
    static LOG: Mutex<Option<HashMap<PathBuf, Box<dyn Any + Send>>>> = Mutex::new(None);
    pub fn clear() {
        *LOG.lock().unwrap() = None;
    }
    pub fn with<T: Default + Send + 'static, R>(p: &Path, f: impl FnOnce(&mut T) -> R) -> R {
        let mut g = LOG.lock().unwrap();
        let m = g.get_or_insert_with(HashMap::new);
        let e = m.entry(p.to_path_buf()).or_insert_with(|| Box::new(T::default()));
        f(e.downcast_mut::<T>().expect("one record type per path"))
    }
}

pub struct Record<Ctx: Context> {
    height: Option<Ctx::Height>,
    own_votes: BTreeMap<(Round, VoteType), SignedVote<Ctx>>,
    own_proposals: BTreeMap<Round, SignedProposal<Ctx>>,
    seen: Vec<SignedConsensusMsg<Ctx>>,
}
impl<Ctx: Context> Default for Record<Ctx> {
    fn default() -> Self {
        Self { height: None, own_votes: BTreeMap::new(), own_proposals: BTreeMap::new(), seen: vec![] }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Step {
    Idle,
    Propose,
    Prevote,
    Precommit,
    Decided,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TimeoutKind {
    Propose,
    Prevote,
    Precommit,
    Rebroadcast,
}

pub enum ConsensusMsg<Ctx: Context> {
    StartHeight(Ctx::Height, Ctx::ValidatorSet),
    NetworkEvent(NetworkEvent<Ctx>),
    Timeout(u64, Ctx::Height, Round, TimeoutKind),
    ProposeValue(LocallyProposedValue<Ctx>),
    ReceivedProposedValue(ProposedValue<Ctx>),
    Synced(CommitCertificate<Ctx>, ProposedValue<Ctx>),
}
impl<Ctx: Context> From<NetworkEvent<Ctx>> for ConsensusMsg<Ctx> {
    fn from(e: NetworkEvent<Ctx>) -> Self {
        ConsensusMsg::NetworkEvent(e)
    }
}
pub type ConsensusRef<Ctx> = ActorRef<ConsensusMsg<Ctx>>;

type Votes<Ctx> = BTreeMap<<Ctx as Context>::Address, SignedVote<Ctx>>;

pub struct State<Ctx: Context> {
    wal: std::path::PathBuf,
    started: u64,
    height: Ctx::Height,
    vset: Ctx::ValidatorSet,
    round: Round,
    step: Step,
    locked: Option<(Round, ValueId<Ctx>)>,
    valid: Option<(Round, Ctx::Value)>,
    proposals: BTreeMap<Round, SignedProposal<Ctx>>,
    values: BTreeMap<ValueId<Ctx>, (Ctx::Value, Validity)>,
    votes: BTreeMap<(Round, VoteType), Votes<Ctx>>,
    synced: BTreeMap<ValueId<Ctx>, CommitCertificate<Ctx>>,
    armed: BTreeSet<(Round, u8)>,
    future: Vec<NetworkEvent<Ctx>>,
    future_values: Vec<ProposedValue<Ctx>>,
}

pub struct Consensus<Ctx: Context> {
    ctx: Ctx,
    params: ConsensusParams<Ctx>,
    timeouts: TimeoutConfig,
    signer: Box<dyn SigningProvider<Ctx>>,
    network: NetworkRef<Ctx>,
    host: HostRef<Ctx>,
    wal: WalRef<Ctx>,
    sync: Option<SyncRef<Ctx>>,
}

const FUTURE_CAP: usize = 4096;

impl<Ctx: Context> Consensus<Ctx> {
    #[allow(clippy::too_many_arguments)]
    pub async fn spawn(
        ctx: Ctx,
        params: ConsensusParams<Ctx>,
        timeouts: TimeoutConfig,
        signer: Box<dyn SigningProvider<Ctx>>,
        network: NetworkRef<Ctx>,
        host: HostRef<Ctx>,
        wal: WalRef<Ctx>,
        sync: Option<SyncRef<Ctx>>,
        _metrics: Metrics,
        _tx_event: TxEvent<Ctx>,
        _span: tracing::Span,
    ) -> Result<ConsensusRef<Ctx>, ractor::SpawnErr> {
        let c = Consensus { ctx, params, timeouts, signer, network, host, wal, sync };
        let (r, _) = Actor::spawn(None, c, ()).await?;
        Ok(r)
    }

    fn power(&self, st: &State<Ctx>, a: &Ctx::Address) -> VotingPower {
        st.vset.get_by_address(a).map_or(0, |v| v.voting_power())
    }
    fn quorum(&self, st: &State<Ctx>, w: VotingPower) -> bool {
        self.params.threshold_params.quorum.is_met(w, st.vset.total_voting_power())
    }
    fn weight(&self, st: &State<Ctx>, r: Round, t: VoteType, v: Option<&NilOrVal<ValueId<Ctx>>>) -> VotingPower {
        st.votes.get(&(r, t)).map_or(0, |m| {
            m.iter().filter(|(_, s)| v.map_or(true, |v| s.value() == v)).map(|(a, _)| self.power(st, a)).sum()
        })
    }
    fn value_with_quorum(&self, st: &State<Ctx>, r: Round, t: VoteType) -> Option<ValueId<Ctx>> {
        let ids: BTreeSet<ValueId<Ctx>> = st
            .votes
            .get(&(r, t))?
            .values()
            .filter_map(|v| match v.value() {
                NilOrVal::Val(id) => Some(id.clone()),
                NilOrVal::Nil => None,
            })
            .collect();
        ids.into_iter().find(|id| self.quorum(st, self.weight(st, r, t, Some(&NilOrVal::Val(id.clone())))))
    }
    fn arm(&self, me: &ActorRef<ConsensusMsg<Ctx>>, st: &mut State<Ctx>, r: Round, k: TimeoutKind) {
        if !st.armed.insert((r, k as u8)) {
            return;
        }
        let n = r.as_u32().unwrap_or(0);
        let d: Duration = match k {
            TimeoutKind::Propose => self.timeouts.timeout_propose + self.timeouts.timeout_propose_delta * n,
            TimeoutKind::Prevote => self.timeouts.timeout_prevote + self.timeouts.timeout_prevote_delta * n,
            TimeoutKind::Precommit => self.timeouts.timeout_precommit + self.timeouts.timeout_precommit_delta * n,
            TimeoutKind::Rebroadcast => self.timeouts.timeout_step,
        };
        let (me, h, gen) = (me.clone(), st.height, st.started);
        tokio::spawn(async move {
            tokio::time::sleep(d).await;
            let _ = me.cast(ConsensusMsg::Timeout(gen, h, r, k));
        });
    }

    fn start_round(&self, me: &ActorRef<ConsensusMsg<Ctx>>, st: &mut State<Ctx>, r: Round) -> Result<(), ActorProcessingErr> {
        st.round = r;
        st.step = Step::Propose;
        let proposer = self.ctx.select_proposer(&st.vset, st.height, r).address().clone();
        self.host.cast(HostMsg::StartedRound { height: st.height, round: r, proposer: proposer.clone() })?;
        self.arm(me, st, r, TimeoutKind::Rebroadcast);
        if proposer == self.params.address {
            let recorded = durable::with::<Record<Ctx>, _>(&st.wal, |rec| rec.own_proposals.get(&r).cloned());
            if let Some(p) = recorded {
                st.proposals.insert(r, p.clone());
                self.network.cast(NetworkMsg::Publish(SignedConsensusMsg::Proposal(p.clone())))?;
                self.restream(st, r, p.pol_round(), p.value().id())?;
            } else if let Some((vr, v)) = st.valid.clone() {
                self.propose(st, v.clone(), vr)?;
                self.restream(st, r, vr, v.id())?;
            } else {
                let (height, round, timeout) = (st.height, r, self.timeouts.timeout_propose);
                self.host.call_and_forward(
                    |reply_to| HostMsg::GetValue { height, round, timeout, reply_to },
                    me,
                    ConsensusMsg::ProposeValue,
                    None,
                )?;
            }
        }
        self.arm(me, st, r, TimeoutKind::Propose);
        Ok(())
    }
    fn restream(&self, st: &State<Ctx>, round: Round, valid_round: Round, value_id: ValueId<Ctx>) -> Result<(), ActorProcessingErr> {
        self.host.cast(HostMsg::RestreamValue {
            height: st.height,
            round,
            valid_round,
            address: self.params.address.clone(),
            value_id,
        })?;
        Ok(())
    }
    fn propose(&self, st: &mut State<Ctx>, v: Ctx::Value, pol: Round) -> Result<(), ActorProcessingErr> {
        let r = st.round;
        let p = self.signer.sign_proposal(Ctx::new_proposal(st.height, r, v.clone(), pol, self.params.address.clone()));
        durable::with::<Record<Ctx>, _>(&st.wal, |rec| {
            rec.own_proposals.insert(r, p.clone());
        });
        st.values.entry(v.id()).or_insert((v, Validity::Valid));
        st.proposals.insert(r, p.clone());
        self.network.cast(NetworkMsg::Publish(SignedConsensusMsg::Proposal(p)))?;
        Ok(())
    }
    fn vote(&self, st: &mut State<Ctx>, t: VoteType, v: NilOrVal<ValueId<Ctx>>) -> Result<(), ActorProcessingErr> {
        st.step = if t == VoteType::Prevote { Step::Prevote } else { Step::Precommit };
        if st.vset.get_by_address(&self.params.address).is_none() {
            return Ok(());
        }
        let r = st.round;
        let signed = durable::with::<Record<Ctx>, _>(&st.wal, |rec| {
            rec.own_votes
                .entry((r, t))
                .or_insert_with(|| {
                    let a = self.params.address.clone();
                    self.signer.sign_vote(match t {
                        VoteType::Prevote => Ctx::new_prevote(st.height, r, v.clone(), a),
                        VoteType::Precommit => Ctx::new_precommit(st.height, r, v.clone(), a),
                    })
                })
                .clone()
        });
        st.votes.entry((r, t)).or_default().insert(self.params.address.clone(), signed.clone());
        self.network.cast(NetworkMsg::Publish(SignedConsensusMsg::Vote(signed)))?;
        Ok(())
    }

    /// A proposal of round r with its value, if both are here: (value id, pol round, valid?)
    fn proposal(&self, st: &State<Ctx>, r: Round) -> Option<(Ctx::Value, Round, bool)> {
        let p = st.proposals.get(&r)?;
        let (v, ok) = st.values.get(&p.value().id())?;
        Some((v.clone(), p.pol_round(), ok.is_valid()))
    }

    fn progress(&self, me: &ActorRef<ConsensusMsg<Ctx>>, st: &mut State<Ctx>) -> Result<(), ActorProcessingErr> {
        loop {
            if matches!(st.step, Step::Idle | Step::Decided) {
                return Ok(());
            }
            // Synced certificates decide outright.
            let synced = st
                .synced
                .iter()
                .find(|(id, _)| st.values.get(*id).map_or(false, |(_, ok)| ok.is_valid()))
                .map(|(_, c)| c.clone());
            if let Some(c) = synced {
                return self.decide(me, st, c);
            }
            // Precommit quorum for a value, any round.
            let rounds: BTreeSet<Round> = st.votes.keys().map(|k| k.0).collect();
            for r in &rounds {
                if let Some(id) = self.value_with_quorum(st, *r, VoteType::Precommit) {
                    let have = self.proposal(st, *r).map_or(false, |(v, _, ok)| v.id() == id && ok);
                    if have {
                        let sigs = st.votes[&(*r, VoteType::Precommit)]
                            .iter()
                            .filter(|(_, v)| v.value() == &NilOrVal::Val(id.clone()))
                            .map(|(a, v)| CommitSignature::new(a.clone(), v.signature.clone()))
                            .collect();
                        let c = CommitCertificate {
                            height: st.height,
                            round: *r,
                            value_id: id,
                            aggregated_signature: AggregatedSignature::new(sigs),
                        };
                        return self.decide(me, st, c);
                    }
                }
            }
            // Skip to a higher round once one honest validator is there.
            let total = st.vset.total_voting_power();
            let higher = rounds.iter().rev().find(|r| {
                **r > st.round && {
                    let who: BTreeSet<&Ctx::Address> = [VoteType::Prevote, VoteType::Precommit]
                        .iter()
                        .filter_map(|t| st.votes.get(&(**r, *t)))
                        .flat_map(|m| m.keys())
                        .collect();
                    let w = who.iter().map(|a| self.power(st, a)).sum();
                    self.params.threshold_params.honest.is_met(w, total)
                }
            });
            if let Some(r) = higher.copied() {
                self.start_round(me, st, r)?;
                continue;
            }
            let r = st.round;
            let prop = self.proposal(st, r);
            if st.step == Step::Propose {
                if let Some((v, pol, ok)) = &prop {
                    let id = v.id();
                    let pol_ok = pol.is_nil()
                        || self.quorum(st, self.weight(st, *pol, VoteType::Prevote, Some(&NilOrVal::Val(id.clone()))));
                    if pol_ok {
                        let free = match &st.locked {
                            None => true,
                            Some((lr, lv)) => lv == &id || (pol.is_defined() && lr <= pol),
                        };
                        let choice = if *ok && free { NilOrVal::Val(id) } else { NilOrVal::Nil };
                        self.vote(st, VoteType::Prevote, choice)?;
                        continue;
                    }
                }
            }
            if st.step >= Step::Prevote {
                if let Some((v, _, true)) = &prop {
                    let id = v.id();
                    if self.quorum(st, self.weight(st, r, VoteType::Prevote, Some(&NilOrVal::Val(id.clone()))))
                        && st.valid.as_ref().map_or(true, |(vr, _)| *vr < r)
                    {
                        st.valid = Some((r, v.clone()));
                        if st.step == Step::Prevote {
                            st.locked = Some((r, id.clone()));
                            self.vote(st, VoteType::Precommit, NilOrVal::Val(id))?;
                        }
                        continue;
                    }
                }
            }
            if st.step == Step::Prevote {
                if self.quorum(st, self.weight(st, r, VoteType::Prevote, Some(&NilOrVal::Nil))) {
                    self.vote(st, VoteType::Precommit, NilOrVal::Nil)?;
                    continue;
                }
                if self.quorum(st, self.weight(st, r, VoteType::Prevote, None)) {
                    self.arm(me, st, r, TimeoutKind::Prevote);
                }
            }
            if self.quorum(st, self.weight(st, r, VoteType::Precommit, None)) {
                self.arm(me, st, r, TimeoutKind::Precommit);
            }
            return Ok(());
        }
    }

    fn decide(
        &self,
        me: &ActorRef<ConsensusMsg<Ctx>>,
        st: &mut State<Ctx>,
        certificate: CommitCertificate<Ctx>,
    ) -> Result<(), ActorProcessingErr> {
        st.step = Step::Decided;
        let height = st.height;
        if let Some(s) = &self.sync {
            s.cast(SyncMsg::Decided(height))?;
        }
        self.host.cast(HostMsg::Decided { certificate, extensions: VoteExtensions(vec![]), consensus: me.clone() })?;
        Ok(())
    }

    fn on_vote(&self, st: &mut State<Ctx>, v: SignedVote<Ctx>) -> bool {
        let Some(val) = st.vset.get_by_address(v.validator_address()) else {
            return false;
        };
        if !self.signer.verify_signed_vote(&v.message, &v.signature, val.public_key()) {
            return false;
        }
        let slot = st.votes.entry((v.round(), v.vote_type())).or_default();
        if slot.contains_key(v.validator_address()) {
            return false;
        }
        slot.insert(v.validator_address().clone(), v);
        true
    }
    fn on_proposal(&self, st: &mut State<Ctx>, p: SignedProposal<Ctx>) -> bool {
        let proposer = self.ctx.select_proposer(&st.vset, st.height, p.round());
        if proposer.address() != p.validator_address()
            || !self.signer.verify_signed_proposal(&p.message, &p.signature, proposer.public_key())
            || st.proposals.contains_key(&p.round())
        {
            return false;
        }
        st.proposals.insert(p.round(), p);
        true
    }
    fn on_value(&self, st: &mut State<Ctx>, v: ProposedValue<Ctx>) {
        if v.height > st.height || st.step == Step::Idle {
            if st.future_values.len() < FUTURE_CAP {
                st.future_values.push(v);
            }
        } else if v.height == st.height {
            let e = st.values.entry(v.value.id()).or_insert((v.value.clone(), v.validity));
            if v.validity.is_valid() {
                *e = (v.value, v.validity);
            }
        }
    }
    fn verify_certificate(&self, st: &State<Ctx>, c: &CommitCertificate<Ctx>) -> bool {
        let mut seen = BTreeSet::new();
        let mut w = 0;
        for s in &c.aggregated_signature.signatures {
            let Some(v) = st.vset.get_by_address(&s.address) else {
                return false;
            };
            if !seen.insert(s.address.clone()) {
                return false;
            }
            match self.signer.verify_commit_signature(c, s, v) {
                Ok(p) => w += p,
                Err(_) => return false,
            }
        }
        self.quorum(st, w)
    }
    fn on_event(&self, me: &ActorRef<ConsensusMsg<Ctx>>, st: &mut State<Ctx>, e: NetworkEvent<Ctx>) -> Result<(), ActorProcessingErr> {
        match e {
            NetworkEvent::Vote(p, v) => {
                if v.height() > st.height || (st.step == Step::Idle && v.height() >= st.height) {
                    self.keep(st, NetworkEvent::Vote(p, v));
                } else if v.height() == st.height && st.step != Step::Decided {
                    let m = SignedConsensusMsg::Vote(v.clone());
                    if self.on_vote(st, v) {
                        durable::with::<Record<Ctx>, _>(&st.wal, |r| r.seen.push(m));
                    }
                }
            }
            NetworkEvent::Proposal(p, v) => {
                if v.height() > st.height || (st.step == Step::Idle && v.height() >= st.height) {
                    self.keep(st, NetworkEvent::Proposal(p, v));
                } else if v.height() == st.height && st.step != Step::Decided {
                    let m = SignedConsensusMsg::Proposal(v.clone());
                    if self.on_proposal(st, v) {
                        durable::with::<Record<Ctx>, _>(&st.wal, |r| r.seen.push(m));
                    }
                }
            }
            NetworkEvent::ProposalPart(from, part) => {
                self.host.call_and_forward(
                    |reply_to| HostMsg::ReceivedProposalPart { from, part, reply_to },
                    me,
                    ConsensusMsg::ReceivedProposedValue,
                    None,
                )?;
            }
            NetworkEvent::Response(_, peer, Response::ValueResponse(r)) => {
                let Some(v) = r.value else { return Ok(()) };
                let c = v.certificate;
                if c.height != st.height || matches!(st.step, Step::Decided | Step::Idle) {
                    return Ok(());
                }
                if !self.verify_certificate(st, &c) {
                    if let Some(s) = &self.sync {
                        s.cast(SyncMsg::InvalidCertificate(peer, c))?;
                    }
                    return Ok(());
                }
                let (height, round, a) = (c.height, c.round, self.params.address.clone());
                self.host.call_and_forward(
                    |reply_to| HostMsg::ProcessSyncedValue {
                        height,
                        round,
                        validator_address: a,
                        value_bytes: v.value_bytes,
                        reply_to,
                    },
                    me,
                    move |pv| ConsensusMsg::Synced(c, pv),
                    None,
                )?;
            }
            _ => {}
        }
        Ok(())
    }
    fn keep(&self, st: &mut State<Ctx>, e: NetworkEvent<Ctx>) {
        if st.future.len() < FUTURE_CAP {
            st.future.push(e);
        }
    }
    fn start_height(
        &self,
        me: &ActorRef<ConsensusMsg<Ctx>>,
        st: &mut State<Ctx>,
        h: Ctx::Height,
        vs: Ctx::ValidatorSet,
    ) -> Result<(), ActorProcessingErr> {
        st.started += 1;
        st.height = h;
        st.vset = vs;
        st.locked = None;
        st.valid = None;
        st.proposals.clear();
        st.values.clear();
        st.votes.clear();
        st.synced.clear();
        st.armed.clear();
        st.step = Step::Propose;
        st.round = Round::ZERO;
        let (seen, own, own_proposals) = durable::with::<Record<Ctx>, _>(&st.wal, |r| {
            if r.height != Some(h) {
                *r = Record { height: Some(h), ..Record::default() };
            }
            (r.seen.clone(), r.own_votes.clone(), r.own_proposals.clone())
        });
        for m in seen {
            match m {
                SignedConsensusMsg::Vote(v) => self.on_vote(st, v),
                SignedConsensusMsg::Proposal(p) => self.on_proposal(st, p),
            };
        }
        for (r, p) in own_proposals {
            st.proposals.insert(r, p);
        }
        let mut at = Round::ZERO;
        for ((r, t), v) in own {
            if let (VoteType::Precommit, NilOrVal::Val(id)) = (t, v.value()) {
                st.locked = Some((r, id.clone()));
            }
            at = at.max(r);
            st.votes.entry((r, t)).or_default().insert(self.params.address.clone(), v);
        }
        if let Some(s) = &self.sync {
            s.cast(SyncMsg::StartedHeight(h))?;
        }
        let (values, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut st.future_values).into_iter().partition(|v| v.height == h);
        st.future_values = rest.into_iter().filter(|v| v.height > h).collect();
        for v in values {
            self.on_value(st, v);
        }
        self.start_round(me, st, at)?;
        for e in std::mem::take(&mut st.future) {
            self.on_event(me, st, e)?;
        }
        self.progress(me, st)
    }
}

#[async_trait::async_trait]
impl<Ctx: Context> Actor for Consensus<Ctx> {
    type Msg = ConsensusMsg<Ctx>;
    type State = State<Ctx>;
    type Arguments = ();
    async fn pre_start(&self, _: ActorRef<Self::Msg>, _: ()) -> Result<State<Ctx>, ActorProcessingErr> {
        let wal = ractor::call!(self.wal, |r| WalMsgFor(WalMsg::Path(r), PhantomData))?;
        Ok(State {
            wal,
            started: 0,
            height: self.params.initial_height,
            vset: self.params.initial_validator_set.clone(),
            round: Round::Nil,
            step: Step::Idle,
            locked: None,
            valid: None,
            proposals: BTreeMap::new(),
            values: BTreeMap::new(),
            votes: BTreeMap::new(),
            synced: BTreeMap::new(),
            armed: BTreeSet::new(),
            future: vec![],
            future_values: vec![],
        })
    }
    async fn post_start(&self, me: ActorRef<Self::Msg>, _: &mut State<Ctx>) -> Result<(), ActorProcessingErr> {
        self.network.cast(NetworkMsg::Subscribe(Box::new(me.clone())))?;
        self.host.cast(HostMsg::ConsensusReady(me))?;
        Ok(())
    }
    async fn handle(&self, me: ActorRef<Self::Msg>, m: Self::Msg, st: &mut State<Ctx>) -> Result<(), ActorProcessingErr> {
        let r = match m {
            ConsensusMsg::StartHeight(h, vs) => self.start_height(&me, st, h, vs),
            ConsensusMsg::NetworkEvent(e) => self.on_event(&me, st, e).and_then(|_| self.progress(&me, st)),
            ConsensusMsg::ReceivedProposedValue(v) => {
                self.on_value(st, v);
                self.progress(&me, st)
            }
            ConsensusMsg::Synced(c, v) => {
                if c.height == st.height {
                    st.synced.insert(c.value_id.clone(), c);
                }
                self.on_value(st, v);
                self.progress(&me, st)
            }
            ConsensusMsg::ProposeValue(v) => {
                if v.height == st.height && v.round == st.round && st.step == Step::Propose && !st.proposals.contains_key(&v.round) {
                    self.propose(st, v.value, Round::Nil).and_then(|_| self.progress(&me, st))
                } else {
                    Ok(())
                }
            }
            ConsensusMsg::Timeout(gen, h, r, k) => {
                if gen != st.started || h != st.height || r != st.round || st.step == Step::Decided {
                    Ok(())
                } else {
                    match k {
                        TimeoutKind::Propose if st.step == Step::Propose => self
                            .vote(st, VoteType::Prevote, NilOrVal::Nil)
                            .and_then(|_| self.progress(&me, st)),
                        TimeoutKind::Prevote if st.step == Step::Prevote => self
                            .vote(st, VoteType::Precommit, NilOrVal::Nil)
                            .and_then(|_| self.progress(&me, st)),
                        TimeoutKind::Precommit => {
                            let next = st.round.increment();
                            self.start_round(&me, st, next).and_then(|_| self.progress(&me, st))
                        }
                        TimeoutKind::Rebroadcast => {
                            st.armed.remove(&(r, TimeoutKind::Rebroadcast as u8));
                            let own: Vec<_> = st
                                .votes
                                .values()
                                .filter_map(|m| m.get(&self.params.address))
                                .map(|v| SignedConsensusMsg::Vote(v.clone()))
                                .chain(
                                    st.proposals
                                        .values()
                                        .filter(|p| p.validator_address() == &self.params.address)
                                        .map(|p| SignedConsensusMsg::Proposal(p.clone())),
                                )
                                .collect();
                            for m in own {
                                self.network.cast(NetworkMsg::Publish(m))?;
                            }
                            let again: Vec<_> = st
                                .proposals
                                .values()
                                .filter(|p| p.validator_address() == &self.params.address)
                                .map(|p| (p.round(), p.pol_round(), p.value().id()))
                                .collect();
                            for (r, pr, id) in again {
                                self.restream(st, r, pr, id)?;
                            }
                            self.arm(&me, st, r, TimeoutKind::Rebroadcast);
                            Ok(())
                        }
                        _ => Ok(()),
                    }
                }
            }
        };
        if let Err(e) = r {
            tracing::error!("consensus: {e:?}");
        }
        Ok(())
    }
}

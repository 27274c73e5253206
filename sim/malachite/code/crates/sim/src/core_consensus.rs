pub use crate::peer::PeerId;
use informalsystems_malachitebft_core_types::*;
use std::fmt::{self, Debug};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ValuePayload {
    PartsOnly,
    ProposalOnly,
    ProposalAndParts,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum VoteSyncMode {
    #[default]
    RequestResponse,
    Rebroadcast,
}

pub struct Params<Ctx: Context> {
    pub initial_height: Ctx::Height,
    pub initial_validator_set: Ctx::ValidatorSet,
    pub address: Ctx::Address,
    pub threshold_params: ThresholdParams,
    pub value_payload: ValuePayload,
    pub vote_sync_mode: VoteSyncMode,
}
pub struct State<Ctx: Context> {
    pub params: Params<Ctx>,
}

pub struct ProposedValue<Ctx: Context> {
    pub height: Ctx::Height,
    pub round: Round,
    pub valid_round: Round,
    pub proposer: Ctx::Address,
    pub value: Ctx::Value,
    pub validity: Validity,
}
impl<Ctx: Context> Clone for ProposedValue<Ctx> {
    fn clone(&self) -> Self {
        Self {
            height: self.height,
            round: self.round,
            valid_round: self.valid_round,
            proposer: self.proposer.clone(),
            value: self.value.clone(),
            validity: self.validity,
        }
    }
}
impl<Ctx: Context> Debug for ProposedValue<Ctx> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ProposedValue({:?} {:?} {:?} {:?})", self.height, self.round, self.value, self.validity)
    }
}
impl<Ctx: Context> PartialEq for ProposedValue<Ctx> {
    fn eq(&self, o: &Self) -> bool {
        self.height == o.height
            && self.round == o.round
            && self.valid_round == o.valid_round
            && self.proposer == o.proposer
            && self.value == o.value
            && self.validity == o.validity
    }
}
impl<Ctx: Context> Eq for ProposedValue<Ctx> {}

pub enum SignedConsensusMsg<Ctx: Context> {
    Vote(SignedVote<Ctx>),
    Proposal(SignedProposal<Ctx>),
}
impl<Ctx: Context> SignedConsensusMsg<Ctx> {
    pub fn signature(&self) -> &Signature<Ctx> {
        match self {
            Self::Vote(v) => &v.signature,
            Self::Proposal(p) => &p.signature,
        }
    }
}
impl<Ctx: Context> Clone for SignedConsensusMsg<Ctx> {
    fn clone(&self) -> Self {
        match self {
            Self::Vote(v) => Self::Vote(v.clone()),
            Self::Proposal(p) => Self::Proposal(p.clone()),
        }
    }
}
impl<Ctx: Context> Debug for SignedConsensusMsg<Ctx> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Vote(v) => write!(f, "Vote({:?})", v),
            Self::Proposal(p) => write!(f, "Proposal({:?})", p),
        }
    }
}

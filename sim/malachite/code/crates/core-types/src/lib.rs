//! Simulation stand-in for malachite's core types: same names, same meaning, no engine.
use std::fmt::{self, Debug, Display};
use std::ops::Deref;

pub trait Address: Clone + Debug + Display + Eq + Ord + Send + Sync + 'static {}

pub trait Height: Default + Copy + Clone + Debug + Display + Eq + Ord + Send + Sync + 'static {
    const ZERO: Self;
    const INITIAL: Self;
    fn increment(&self) -> Self {
        self.increment_by(1)
    }
    fn decrement(&self) -> Option<Self> {
        self.decrement_by(1)
    }
    fn increment_by(&self, n: u64) -> Self;
    fn decrement_by(&self, n: u64) -> Option<Self>;
    fn as_u64(&self) -> u64;
}

pub trait Value: Clone + Debug + Eq + Ord + Send + Sync + 'static {
    type Id: Clone + Debug + Eq + Ord + Send + Sync + 'static;
    fn id(&self) -> Self::Id;
}
pub type ValueId<Ctx> = <<Ctx as Context>::Value as Value>::Id;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Round {
    #[default]
    Nil,
    Some(u32),
}
impl Round {
    pub const ZERO: Round = Round::Some(0);
    pub const fn new(r: u32) -> Self {
        Round::Some(r)
    }
    pub const fn as_i64(&self) -> i64 {
        match self {
            Round::Nil => -1,
            Round::Some(r) => *r as i64,
        }
    }
    pub const fn as_u32(&self) -> Option<u32> {
        match self {
            Round::Nil => None,
            Round::Some(r) => Some(*r),
        }
    }
    pub const fn is_defined(&self) -> bool {
        matches!(self, Round::Some(_))
    }
    pub const fn is_nil(&self) -> bool {
        matches!(self, Round::Nil)
    }
    pub const fn increment(&self) -> Round {
        match self {
            Round::Nil => Round::Some(0),
            Round::Some(r) => Round::Some(*r + 1),
        }
    }
}
impl From<u32> for Round {
    fn from(r: u32) -> Self {
        Round::Some(r)
    }
}
impl From<i64> for Round {
    fn from(r: i64) -> Self {
        if r < 0 {
            Round::Nil
        } else {
            Round::Some(r as u32)
        }
    }
}
impl Display for Round {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_i64())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum NilOrVal<T> {
    Nil,
    Val(T),
}
impl<T> NilOrVal<T> {
    pub fn is_nil(&self) -> bool {
        matches!(self, NilOrVal::Nil)
    }
    pub fn is_val(&self) -> bool {
        !self.is_nil()
    }
    pub fn as_ref(&self) -> NilOrVal<&T> {
        match self {
            NilOrVal::Nil => NilOrVal::Nil,
            NilOrVal::Val(v) => NilOrVal::Val(v),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum VoteType {
    Prevote,
    Precommit,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Validity {
    Valid,
    Invalid,
}
impl Validity {
    pub fn is_valid(self) -> bool {
        self == Validity::Valid
    }
    pub fn to_bool(self) -> bool {
        self.is_valid()
    }
    pub fn from_bool(b: bool) -> Self {
        if b {
            Validity::Valid
        } else {
            Validity::Invalid
        }
    }
}

pub type VotingPower = u64;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ThresholdParam {
    pub numerator: u64,
    pub denominator: u64,
}
impl ThresholdParam {
    pub const ONE_PLUS_THIRDS: Self = Self { numerator: 1, denominator: 3 };
    pub const TWO_THIRDS: Self = Self { numerator: 2, denominator: 3 };
    /// weight / total > numerator / denominator
    pub fn is_met(&self, weight: VotingPower, total: VotingPower) -> bool {
        (weight as u128) * (self.denominator as u128) > (total as u128) * (self.numerator as u128)
    }
    pub fn min_expected(&self, total: VotingPower) -> VotingPower {
        1 + (total * self.numerator) / self.denominator
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ThresholdParams {
    pub quorum: ThresholdParam,
    pub honest: ThresholdParam,
}
impl Default for ThresholdParams {
    fn default() -> Self {
        Self {
            quorum: ThresholdParam::TWO_THIRDS,
            honest: ThresholdParam::ONE_PLUS_THIRDS,
        }
    }
}

pub trait SigningScheme: Clone + Debug + Eq + 'static {
    type DecodingError: Display;
    type Signature: Clone + Debug + Eq + Ord + Send + Sync;
    type PublicKey: Clone + Debug + Eq + Send + Sync;
    type PrivateKey: Clone + Send + Sync;
    fn decode_signature(bytes: &[u8]) -> Result<Self::Signature, Self::DecodingError>;
    fn encode_signature(signature: &Self::Signature) -> Vec<u8>;
}
pub type Signature<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::Signature;
pub type PublicKey<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::PublicKey;
pub type PrivateKey<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::PrivateKey;

pub trait Validator<Ctx: Context>: Clone + Debug + Eq + Send + Sync + 'static {
    fn address(&self) -> &Ctx::Address;
    fn public_key(&self) -> &PublicKey<Ctx>;
    fn voting_power(&self) -> VotingPower;
}
pub trait ValidatorSet<Ctx: Context>: Clone + Debug + Eq + Send + Sync + 'static {
    fn count(&self) -> usize;
    fn total_voting_power(&self) -> VotingPower;
    fn get_by_address(&self, address: &Ctx::Address) -> Option<&Ctx::Validator>;
    fn get_by_index(&self, index: usize) -> Option<&Ctx::Validator>;
}
pub trait Vote<Ctx: Context>: Clone + Debug + Eq + Ord + Send + Sync + 'static {
    fn height(&self) -> Ctx::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &NilOrVal<ValueId<Ctx>>;
    fn take_value(self) -> NilOrVal<ValueId<Ctx>>;
    fn vote_type(&self) -> VoteType;
    fn validator_address(&self) -> &Ctx::Address;
    fn extension(&self) -> Option<&SignedExtension<Ctx>>;
    fn take_extension(&mut self) -> Option<SignedExtension<Ctx>>;
    fn extend(self, extension: SignedExtension<Ctx>) -> Self;
}
pub trait Proposal<Ctx: Context>: Clone + Debug + Eq + Send + Sync + 'static {
    fn height(&self) -> Ctx::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &Ctx::Value;
    fn take_value(self) -> Ctx::Value;
    fn pol_round(&self) -> Round;
    fn validator_address(&self) -> &Ctx::Address;
}
pub trait ProposalPart<Ctx: Context>: Clone + Debug + Eq + Send + Sync + 'static {
    fn is_first(&self) -> bool;
    fn is_last(&self) -> bool;
}

pub trait Context: Sized + Clone + Send + Sync + 'static {
    type Address: Address;
    type Height: Height;
    type ProposalPart: ProposalPart<Self>;
    type Proposal: Proposal<Self>;
    type Validator: Validator<Self>;
    type ValidatorSet: ValidatorSet<Self>;
    type Value: Value;
    type Vote: Vote<Self>;
    type Extension: Clone + Debug + Eq + Send + Sync + 'static;
    type SigningScheme: SigningScheme;
    fn select_proposer<'a>(
        &self,
        validator_set: &'a Self::ValidatorSet,
        height: Self::Height,
        round: Round,
    ) -> &'a Self::Validator;
    fn new_proposal(
        height: Self::Height,
        round: Round,
        value: Self::Value,
        pol_round: Round,
        address: Self::Address,
    ) -> Self::Proposal;
    fn new_prevote(
        height: Self::Height,
        round: Round,
        value_id: NilOrVal<ValueId<Self>>,
        address: Self::Address,
    ) -> Self::Vote;
    fn new_precommit(
        height: Self::Height,
        round: Round,
        value_id: NilOrVal<ValueId<Self>>,
        address: Self::Address,
    ) -> Self::Vote;
}

pub struct SignedMessage<Ctx: Context, Msg> {
    pub message: Msg,
    pub signature: Signature<Ctx>,
}
impl<Ctx: Context, Msg> SignedMessage<Ctx, Msg> {
    pub fn new(message: Msg, signature: Signature<Ctx>) -> Self {
        Self { message, signature }
    }
}
impl<Ctx: Context, Msg: Clone> Clone for SignedMessage<Ctx, Msg> {
    fn clone(&self) -> Self {
        Self { message: self.message.clone(), signature: self.signature.clone() }
    }
}
impl<Ctx: Context, Msg: Debug> Debug for SignedMessage<Ctx, Msg> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("SignedMessage").field("message", &self.message).field("signature", &self.signature).finish()
    }
}
impl<Ctx: Context, Msg: PartialEq> PartialEq for SignedMessage<Ctx, Msg> {
    fn eq(&self, o: &Self) -> bool {
        self.message == o.message && self.signature == o.signature
    }
}
impl<Ctx: Context, Msg: Eq> Eq for SignedMessage<Ctx, Msg> {}
impl<Ctx: Context, Msg> Deref for SignedMessage<Ctx, Msg> {
    type Target = Msg;
    fn deref(&self) -> &Msg {
        &self.message
    }
}
pub type SignedVote<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Vote>;
pub type SignedProposal<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Proposal>;
pub type SignedProposalPart<Ctx> = SignedMessage<Ctx, <Ctx as Context>::ProposalPart>;
pub type SignedExtension<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Extension>;

macro_rules! ctx_struct {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        pub struct $name<Ctx: Context> { $(pub $f: $t),* }
        impl<Ctx: Context> Clone for $name<Ctx> {
            fn clone(&self) -> Self { Self { $($f: self.$f.clone()),* } }
        }
        impl<Ctx: Context> Debug for $name<Ctx> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)) $(.field(stringify!($f), &self.$f))* .finish()
            }
        }
        impl<Ctx: Context> PartialEq for $name<Ctx> {
            fn eq(&self, o: &Self) -> bool { true $(&& self.$f == o.$f)* }
        }
        impl<Ctx: Context> Eq for $name<Ctx> {}
    };
}
ctx_struct!(CommitSignature { address: Ctx::Address, signature: Signature<Ctx> });
impl<Ctx: Context> CommitSignature<Ctx> {
    pub fn new(address: Ctx::Address, signature: Signature<Ctx>) -> Self {
        Self { address, signature }
    }
}
ctx_struct!(AggregatedSignature { signatures: Vec<CommitSignature<Ctx>> });
impl<Ctx: Context> AggregatedSignature<Ctx> {
    pub fn new(signatures: Vec<CommitSignature<Ctx>>) -> Self {
        Self { signatures }
    }
}
ctx_struct!(CommitCertificate {
    height: Ctx::Height,
    round: Round,
    value_id: ValueId<Ctx>,
    aggregated_signature: AggregatedSignature<Ctx>,
});
ctx_struct!(VoteSet { votes: Vec<SignedVote<Ctx>> });
impl<Ctx: Context> VoteSet<Ctx> {
    pub fn new(votes: Vec<SignedVote<Ctx>>) -> Self {
        Self { votes }
    }
    pub fn len(&self) -> usize {
        self.votes.len()
    }
}
pub enum CertificateError<Ctx: Context> {
    InvalidSignature(CommitSignature<Ctx>),
    UnknownValidator(Ctx::Address),
    NotEnoughVotingPower { signed: VotingPower, total: VotingPower, expected: VotingPower },
}
impl<Ctx: Context> Debug for CertificateError<Ctx> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::InvalidSignature(s) => write!(f, "InvalidSignature({:?})", s),
            Self::UnknownValidator(s) => write!(f, "UnknownValidator({:?})", s),
            Self::NotEnoughVotingPower { signed, total, .. } => write!(f, "NotEnoughVotingPower({signed}/{total})"),
        }
    }
}

pub trait SigningProvider<Ctx: Context>: Send + Sync + 'static {
    fn sign_vote(&self, vote: Ctx::Vote) -> SignedMessage<Ctx, Ctx::Vote>;
    fn verify_signed_vote(&self, vote: &Ctx::Vote, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn sign_proposal(&self, proposal: Ctx::Proposal) -> SignedMessage<Ctx, Ctx::Proposal>;
    fn verify_signed_proposal(&self, proposal: &Ctx::Proposal, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn sign_proposal_part(&self, part: Ctx::ProposalPart) -> SignedMessage<Ctx, Ctx::ProposalPart>;
    fn verify_signed_proposal_part(&self, part: &Ctx::ProposalPart, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn sign_vote_extension(&self, extension: Ctx::Extension) -> SignedMessage<Ctx, Ctx::Extension>;
    fn verify_signed_vote_extension(&self, extension: &Ctx::Extension, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn verify_commit_signature(
        &self,
        certificate: &CommitCertificate<Ctx>,
        commit_sig: &CommitSignature<Ctx>,
        validator: &Ctx::Validator,
    ) -> Result<VotingPower, CertificateError<Ctx>>;
}

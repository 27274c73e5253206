pub use crate::peer::{PeerId, PeerIdExt};
use bytes::Bytes;
use informalsystems_malachitebft_core_types::*;
use libp2p::request_response::{self, ProtocolSupport};
use libp2p::swarm::NetworkBehaviour;
use libp2p::StreamProtocol;
use rand::seq::IteratorRandom;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display};
use std::time::Duration;

macro_rules! req_id {
    ($n:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(String);
        impl $n {
            pub fn new(x: impl ToString) -> Self {
                Self(x.to_string())
            }
        }
        impl Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
    };
}
req_id!(InboundRequestId);
req_id!(OutboundRequestId);

#[derive(Clone, Debug)]
pub enum RawMessage {
    Request {
        request_id: request_response::InboundRequestId,
        peer: PeerId,
        body: Bytes,
    },
    Response {
        request_id: request_response::OutboundRequestId,
        peer: PeerId,
        body: Bytes,
    },
}

macro_rules! s {
    ($name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        pub struct $name<Ctx: Context> { $(pub $f: $t),* }
        impl<Ctx: Context> Clone for $name<Ctx> {
            fn clone(&self) -> Self { Self { $($f: self.$f.clone()),* } }
        }
        impl<Ctx: Context> Debug for $name<Ctx> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)) $(.field(stringify!($f), &self.$f))* .finish()
            }
        }
        impl<Ctx: Context> PartialEq for $name<Ctx> {
            fn eq(&self, o: &Self) -> bool { true $(&& self.$f == o.$f)* }
        }
        impl<Ctx: Context> Eq for $name<Ctx> {}
    };
}
s!(Status { peer_id: PeerId, height: Ctx::Height, history_min_height: Ctx::Height });
s!(ValueRequest { height: Ctx::Height });
s!(VoteSetRequest { height: Ctx::Height, round: Round });
s!(RawDecidedValue { certificate: CommitCertificate<Ctx>, value_bytes: Bytes });
s!(ValueResponse { height: Ctx::Height, value: Option<RawDecidedValue<Ctx>> });
s!(VoteSetResponse { height: Ctx::Height, round: Round, vote_set: VoteSet<Ctx> });
impl<Ctx: Context> ValueRequest<Ctx> {
    pub fn new(height: Ctx::Height) -> Self {
        Self { height }
    }
}
impl<Ctx: Context> ValueResponse<Ctx> {
    pub fn new(height: Ctx::Height, value: Option<RawDecidedValue<Ctx>>) -> Self {
        Self { height, value }
    }
}

macro_rules! e {
    ($name:ident { $($v:ident($t:ty)),* }) => {
        pub enum $name<Ctx: Context> { $($v($t)),* }
        impl<Ctx: Context> Clone for $name<Ctx> {
            fn clone(&self) -> Self { match self { $(Self::$v(x) => Self::$v(x.clone())),* } }
        }
        impl<Ctx: Context> Debug for $name<Ctx> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self { $(Self::$v(x) => write!(f, "{}({:?})", stringify!($v), x)),* }
            }
        }
        impl<Ctx: Context> PartialEq for $name<Ctx> {
            fn eq(&self, o: &Self) -> bool {
                match (self, o) { $((Self::$v(a), Self::$v(b)) => a == b,)* #[allow(unreachable_patterns)] _ => false }
            }
        }
        impl<Ctx: Context> Eq for $name<Ctx> {}
    };
}
e!(Request { ValueRequest(ValueRequest<Ctx>), VoteSetRequest(VoteSetRequest<Ctx>) });
e!(Response { ValueResponse(ValueResponse<Ctx>), VoteSetResponse(VoteSetResponse<Ctx>) });

#[derive(Clone, Debug, Default)]
pub struct Metrics;
impl Metrics {
    pub fn new() -> Self {
        Metrics
    }
    pub fn register(_: &crate::metrics::SharedRegistry) -> Self {
        Metrics
    }
}

// ---------------------------------------------------------------- state machine

pub enum Input<Ctx: Context> {
    Tick,
    Status(Status<Ctx>),
    StartHeight(Ctx::Height),
    UpdateHeight(Ctx::Height),
    ValueRequest(InboundRequestId, PeerId, ValueRequest<Ctx>),
    ValueResponse(OutboundRequestId, PeerId, ValueResponse<Ctx>),
    GotDecidedValue(InboundRequestId, Ctx::Height, Option<RawDecidedValue<Ctx>>),
    SyncRequestTimedOut(PeerId, Request<Ctx>),
    InvalidCertificate(PeerId, CommitCertificate<Ctx>),
}

pub enum Effect<Ctx: Context> {
    BroadcastStatus(Ctx::Height),
    SendValueRequest(PeerId, ValueRequest<Ctx>),
    SendValueResponse(InboundRequestId, ValueResponse<Ctx>),
    GetDecidedValue(InboundRequestId, Ctx::Height),
    SendVoteSetRequest(PeerId, VoteSetRequest<Ctx>),
}

pub struct Resume<Ctx: Context>(std::marker::PhantomData<Ctx>);
impl<Ctx: Context> Default for Resume<Ctx> {
    fn default() -> Self {
        Resume(std::marker::PhantomData)
    }
}

pub struct State<Ctx: Context> {
    rng: Box<dyn rand::RngCore + Send>,
    pub tip_height: Ctx::Height,
    pub sync_height: Ctx::Height,
    pub pending: BTreeSet<Ctx::Height>,
    pub peers: BTreeMap<PeerId, Status<Ctx>>,
}
impl<Ctx: Context> State<Ctx> {
    pub fn new(rng: Box<dyn rand::RngCore + Send>) -> Self {
        Self {
            rng,
            tip_height: Ctx::Height::ZERO,
            sync_height: Ctx::Height::ZERO,
            pending: BTreeSet::new(),
            peers: BTreeMap::new(),
        }
    }
    pub fn random_peer_with_value(&mut self, height: Ctx::Height) -> Option<PeerId> {
        self.random_peer_except(height, None)
    }
    fn random_peer_except(&mut self, height: Ctx::Height, except: Option<PeerId>) -> Option<PeerId> {
        self.peers
            .iter()
            .filter(|(p, s)| {
                Some(**p) != except && s.history_min_height <= height && height <= s.height
            })
            .map(|(p, _)| *p)
            .choose(&mut self.rng)
    }
}

fn request<Ctx: Context>(st: &mut State<Ctx>, out: &mut Vec<Effect<Ctx>>, except: Option<PeerId>) {
    let h = st.sync_height;
    if st.pending.contains(&h) {
        return;
    }
    let peer = match st.random_peer_except(h, except) {
        Some(p) => Some(p),
        None => st.random_peer_except(h, None),
    };
    if let Some(p) = peer {
        st.pending.insert(h);
        out.push(Effect::SendValueRequest(p, ValueRequest { height: h }));
    }
}

/// One step of the synchroniser: state in, effects out.
pub fn step<Ctx: Context>(st: &mut State<Ctx>, _m: &Metrics, input: Input<Ctx>) -> Vec<Effect<Ctx>> {
    let mut out = vec![];
    match input {
        Input::Tick => {
            out.push(Effect::BroadcastStatus(st.tip_height));
        }
        Input::Status(s) => {
            let h = s.height;
            st.peers.insert(s.peer_id, s);
            if h > st.tip_height {
                request(st, &mut out, None);
            }
        }
        Input::StartHeight(h) => {
            st.sync_height = h;
            request(st, &mut out, None);
        }
        Input::UpdateHeight(h) => {
            if st.tip_height < h {
                st.tip_height = h;
            }
            let tip = st.tip_height;
            st.pending.retain(|p| *p > tip);
        }
        Input::ValueRequest(id, _peer, r) => out.push(Effect::GetDecidedValue(id, r.height)),
        Input::ValueResponse(_id, peer, r) => {
            st.pending.remove(&r.height);
            if r.value.is_none() {
                request(st, &mut out, Some(peer));
            }
        }
        Input::GotDecidedValue(id, height, value) => {
            // The real codec refuses to encode an absent value: the requester just times out.
            out.push(Effect::SendValueResponse(id, ValueResponse { height, value }));
        }
        Input::SyncRequestTimedOut(peer, r) => {
            if let Request::ValueRequest(r) = r {
                st.pending.remove(&r.height);
                request(st, &mut out, Some(peer));
            }
        }
        Input::InvalidCertificate(peer, c) => {
            st.peers.remove(&peer);
            st.pending.remove(&c.height);
            request(st, &mut out, Some(peer));
        }
    }
    out
}

#[macro_export]
macro_rules! process {
    (input: $input:expr, state: $state:expr, metrics: $metrics:expr, with: $effect:ident => $handle:expr $(,)?) => {{
        let effects = $crate::sync::step($state, $metrics, $input);
        for $effect in effects {
            if let Err(e) = $handle {
                ::tracing::error!("Error handling sync effect: {e:?}");
            }
        }
        Ok(())
    }};
}

// ---------------------------------------------------------------- libp2p behaviour

#[derive(Clone, Copy, Debug)]
pub struct Config {
    pub request_timeout: Duration,
}
impl Default for Config {
    fn default() -> Self {
        Config { request_timeout: Duration::from_secs(10) }
    }
}
impl Config {
    pub fn with_request_timeout(mut self, d: Duration) -> Self {
        self.request_timeout = d;
        self
    }
}

#[derive(Clone, Debug)]
pub struct RawRequest(pub Bytes);
#[derive(Clone, Debug)]
pub struct RawResponse(pub Bytes);
pub type ResponseChannel = request_response::ResponseChannel<RawResponse>;
pub type Event = request_response::Event<RawRequest, RawResponse>;

#[derive(Clone, Default)]
pub struct RpcCodec;

#[async_trait::async_trait]
impl request_response::Codec for RpcCodec {
    type Protocol = StreamProtocol;
    type Request = RawRequest;
    type Response = RawResponse;
    async fn read_request<T>(&mut self, _: &Self::Protocol, io: &mut T) -> std::io::Result<RawRequest>
    where
        T: futures::AsyncRead + Unpin + Send,
    {
        let mut b = vec![];
        futures::AsyncReadExt::read_to_end(io, &mut b).await?;
        Ok(RawRequest(b.into()))
    }
    async fn read_response<T>(&mut self, _: &Self::Protocol, io: &mut T) -> std::io::Result<RawResponse>
    where
        T: futures::AsyncRead + Unpin + Send,
    {
        let mut b = vec![];
        futures::AsyncReadExt::read_to_end(io, &mut b).await?;
        Ok(RawResponse(b.into()))
    }
    async fn write_request<T>(&mut self, _: &Self::Protocol, io: &mut T, r: RawRequest) -> std::io::Result<()>
    where
        T: futures::AsyncWrite + Unpin + Send,
    {
        futures::AsyncWriteExt::write_all(io, &r.0).await?;
        futures::AsyncWriteExt::close(io).await
    }
    async fn write_response<T>(&mut self, _: &Self::Protocol, io: &mut T, r: RawResponse) -> std::io::Result<()>
    where
        T: futures::AsyncWrite + Unpin + Send,
    {
        futures::AsyncWriteExt::write_all(io, &r.0).await?;
        futures::AsyncWriteExt::close(io).await
    }
}

#[derive(NetworkBehaviour)]
#[behaviour(to_swarm = "Event")]
pub struct Behaviour {
    rpc: request_response::Behaviour<RpcCodec>,
}
impl Behaviour {
    pub fn new(config: Config) -> Self {
        Self {
            rpc: request_response::Behaviour::with_codec(
                RpcCodec,
                [(StreamProtocol::new("/malachitebft-sync/v1beta1"), ProtocolSupport::Full)],
                request_response::Config::default().with_request_timeout(config.request_timeout),
            ),
        }
    }
    pub fn send_request(&mut self, peer: libp2p::PeerId, data: Bytes) -> request_response::OutboundRequestId {
        self.rpc.send_request(&peer, RawRequest(data))
    }
    pub fn send_response(&mut self, channel: ResponseChannel, data: Bytes) -> Result<(), String> {
        self.rpc.send_response(channel, RawResponse(data)).map_err(|_| "response channel closed".to_string())
    }
}

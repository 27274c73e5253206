pub mod util {
    pub mod output_port {
        use std::sync::Mutex;
        /// Delivers synchronously, in subscription order.
        pub struct OutputPort<T> {
            subs: Mutex<Vec<Box<dyn Fn(T) -> bool + Send>>>,
        }
        impl<T: Clone + Send + 'static> OutputPort<T> {
            pub fn new() -> Self {
                Self { subs: Mutex::new(vec![]) }
            }
            pub fn with_capacity(_n: usize) -> Self {
                Self::new()
            }
            pub fn send(&self, t: T) {
                self.subs.lock().unwrap().retain(|f| f(t.clone()));
            }
            pub fn subscribe_fn(&self, f: Box<dyn Fn(T) -> bool + Send>) {
                self.subs.lock().unwrap().push(f);
            }
        }
        impl<T: Clone + Send + 'static> Default for OutputPort<T> {
            fn default() -> Self {
                Self::new()
            }
        }
        pub trait OutputPortSubscriberTrait<T>: Send {
            fn subscribe_to_port(&self, port: &OutputPort<T>);
        }
        pub type OutputPortSubscriber<T> = Box<dyn OutputPortSubscriberTrait<T>>;
        impl<T, M> OutputPortSubscriberTrait<T> for ractor::ActorRef<M>
        where
            T: Clone + Send + 'static,
            M: From<T> + ractor::Message,
        {
            fn subscribe_to_port(&self, port: &OutputPort<T>) {
                let me = self.clone();
                port.subscribe_fn(Box::new(move |t| me.cast(M::from(t)).is_ok()));
            }
        }
    }
    pub mod events {
        use std::marker::PhantomData;
        pub struct TxEvent<Ctx>(PhantomData<fn() -> Ctx>);
        impl<Ctx> Clone for TxEvent<Ctx> {
            fn clone(&self) -> Self {
                TxEvent(PhantomData)
            }
        }
        impl<Ctx> TxEvent<Ctx> {
            pub fn new() -> Self {
                TxEvent(PhantomData)
            }
        }
        impl<Ctx> Default for TxEvent<Ctx> {
            fn default() -> Self {
                Self::new()
            }
        }
    }
    pub mod streaming {
        use bytes::Bytes;
        use std::fmt;
        pub type Sequence = u64;
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct StreamId(Bytes);
        impl StreamId {
            pub fn new(b: Bytes) -> Self {
                StreamId(b)
            }
            pub fn to_bytes(&self) -> Bytes {
                self.0.clone()
            }
        }
        impl fmt::Display for StreamId {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                for b in self.0.iter() {
                    write!(f, "{b:02x}")?;
                }
                Ok(())
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum StreamContent<T> {
            Data(T),
            Fin,
        }
        impl<T> StreamContent<T> {
            pub fn as_data(&self) -> Option<&T> {
                match self {
                    StreamContent::Data(t) => Some(t),
                    StreamContent::Fin => None,
                }
            }
            pub fn into_data(self) -> Option<T> {
                match self {
                    StreamContent::Data(t) => Some(t),
                    StreamContent::Fin => None,
                }
            }
            pub fn is_fin(&self) -> bool {
                matches!(self, StreamContent::Fin)
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct StreamMessage<T> {
            pub stream_id: StreamId,
            pub sequence: Sequence,
            pub content: StreamContent<T>,
        }
        impl<T> StreamMessage<T> {
            pub fn new(stream_id: StreamId, sequence: Sequence, content: StreamContent<T>) -> Self {
                Self { stream_id, sequence, content }
            }
            pub fn is_first(&self) -> bool {
                self.sequence == 0
            }
        }
    }
    pub mod ticker {
        use ractor::{ActorRef, Message};
        use std::time::Duration;
        pub async fn ticker<M: Message>(every: Duration, target: ActorRef<M>, msg: impl Fn() -> M + Send) {
            loop {
                tokio::time::sleep(every).await;
                if target.cast(msg()).is_err() {
                    break;
                }
            }
        }
    }
    pub mod timers {
        use std::collections::HashMap;
        use std::hash::Hash;
        use std::time::Duration;
        use tokio::task::JoinHandle;

        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct TimeoutElapsed<K> {
            key: K,
            generation: u64,
        }
        pub trait TimeoutListener<K>: Send + Sync {
            fn notify(&self, e: TimeoutElapsed<K>);
        }
        impl<K, M> TimeoutListener<K> for ractor::ActorRef<M>
        where
            M: From<TimeoutElapsed<K>> + ractor::Message,
        {
            fn notify(&self, e: TimeoutElapsed<K>) {
                let _ = self.cast(M::from(e));
            }
        }
        pub struct TimerScheduler<K: Clone + Eq + Hash + Send + 'static> {
            listener: std::sync::Arc<dyn TimeoutListener<K>>,
            timers: HashMap<K, (u64, JoinHandle<()>)>,
            next: u64,
        }
        impl<K: Clone + Eq + Hash + Send + Sync + 'static> TimerScheduler<K> {
            pub fn new<L: TimeoutListener<K> + 'static>(listener: Box<L>) -> Self {
                Self { listener: std::sync::Arc::from(listener as Box<dyn TimeoutListener<K>>), timers: HashMap::new(), next: 0 }
            }
            pub fn start_timer(&mut self, key: K, d: Duration) {
                self.cancel(&key);
                self.next += 1;
                let generation = self.next;
                let l = self.listener.clone();
                let k = key.clone();
                let h = tokio::spawn(async move {
                    tokio::time::sleep(d).await;
                    l.notify(TimeoutElapsed { key: k, generation });
                });
                self.timers.insert(key, (generation, h));
            }
            pub fn cancel(&mut self, key: &K) {
                if let Some((_, h)) = self.timers.remove(key) {
                    h.abort();
                }
            }
            pub fn cancel_all(&mut self) {
                for (_, (_, h)) in self.timers.drain() {
                    h.abort();
                }
            }
            pub fn is_timer_active(&self, key: &K) -> bool {
                self.timers.contains_key(key)
            }
            pub fn intercept_timer_msg(&mut self, e: TimeoutElapsed<K>) -> Option<K> {
                match self.timers.get(&e.key) {
                    Some((g, _)) if *g == e.generation => {
                        self.timers.remove(&e.key);
                        Some(e.key)
                    }
                    _ => None,
                }
            }
        }
        impl<K: Clone + Eq + Hash + Send + 'static> Drop for TimerScheduler<K> {
            fn drop(&mut self) {
                for (_, (_, h)) in self.timers.drain() {
                    h.abort();
                }
            }
        }
    }
}

pub mod network {
    use super::util::output_port::OutputPortSubscriber;
    use super::util::streaming::StreamMessage;
    use crate::core_consensus::SignedConsensusMsg;
    use crate::network::{Event, Multiaddr, PeerId};
    use crate::sync::{InboundRequestId, OutboundRequestId, Request, Response};
    use informalsystems_malachitebft_core_types::*;
    use ractor::{ActorRef, RpcReplyPort};
    use std::fmt::{self, Debug};

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Status<Ctx: Context> {
        pub height: Ctx::Height,
        pub history_min_height: Ctx::Height,
    }
    impl<Ctx: Context> Status<Ctx> {
        pub fn new(height: Ctx::Height, history_min_height: Ctx::Height) -> Self {
            Self { height, history_min_height }
        }
    }
    pub enum NetworkEvent<Ctx: Context> {
        Listening(Multiaddr),
        PeerConnected(PeerId),
        PeerDisconnected(PeerId),
        Vote(PeerId, SignedVote<Ctx>),
        Proposal(PeerId, SignedProposal<Ctx>),
        ProposalPart(PeerId, StreamMessage<Ctx::ProposalPart>),
        Status(PeerId, Status<Ctx>),
        Request(InboundRequestId, PeerId, Request<Ctx>),
        Response(OutboundRequestId, PeerId, Response<Ctx>),
    }
    impl<Ctx: Context> Clone for NetworkEvent<Ctx> {
        fn clone(&self) -> Self {
            use NetworkEvent::*;
            match self {
                Listening(a) => Listening(a.clone()),
                PeerConnected(p) => PeerConnected(*p),
                PeerDisconnected(p) => PeerDisconnected(*p),
                Vote(p, v) => Vote(*p, v.clone()),
                Proposal(p, v) => Proposal(*p, v.clone()),
                ProposalPart(p, v) => ProposalPart(*p, v.clone()),
                Status(p, s) => Status(*p, super::network::Status::new(s.height, s.history_min_height)),
                Request(i, p, r) => Request(i.clone(), *p, r.clone()),
                Response(i, p, r) => Response(i.clone(), *p, r.clone()),
            }
        }
    }
    impl<Ctx: Context> Debug for NetworkEvent<Ctx> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("NetworkEvent")
        }
    }
    pub enum NetworkMsg<Ctx: Context> {
        Subscribe(OutputPortSubscriber<NetworkEvent<Ctx>>),
        Publish(SignedConsensusMsg<Ctx>),
        PublishProposalPart(StreamMessage<Ctx::ProposalPart>),
        BroadcastStatus(Status<Ctx>),
        OutgoingRequest(PeerId, Request<Ctx>, RpcReplyPort<OutboundRequestId>),
        OutgoingResponse(InboundRequestId, Response<Ctx>),
        NewEvent(Event),
        GetState { reply: RpcReplyPort<usize> },
    }
    impl<Ctx: Context> Debug for NetworkMsg<Ctx> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("NetworkMsg")
        }
    }
    pub type NetworkRef<Ctx> = ActorRef<NetworkMsg<Ctx>>;
}

pub mod host {
    use super::consensus::ConsensusRef;
    use super::util::streaming::StreamMessage;
    use crate::core_consensus::ProposedValue;
    use crate::peer::PeerId;
    use crate::sync::RawDecidedValue;
    use bytes::Bytes;
    use informalsystems_malachitebft_core_types::*;
    use ractor::{ActorRef, RpcReplyPort};
    use std::fmt::{self, Debug};
    use std::time::Duration;

    pub struct LocallyProposedValue<Ctx: Context> {
        pub height: Ctx::Height,
        pub round: Round,
        pub value: Ctx::Value,
    }
    impl<Ctx: Context> LocallyProposedValue<Ctx> {
        pub fn new(height: Ctx::Height, round: Round, value: Ctx::Value) -> Self {
            Self { height, round, value }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum VoteExtensionError {
        InvalidSignature,
        InvalidVoteExtension,
    }
    pub struct VoteExtensions<Ctx: Context>(pub Vec<(Ctx::Address, SignedExtension<Ctx>)>);
    pub enum HostMsg<Ctx: Context> {
        ConsensusReady(ConsensusRef<Ctx>),
        StartedRound {
            height: Ctx::Height,
            round: Round,
            proposer: Ctx::Address,
        },
        GetValue {
            height: Ctx::Height,
            round: Round,
            timeout: Duration,
            reply_to: RpcReplyPort<LocallyProposedValue<Ctx>>,
        },
        ExtendVote {
            height: Ctx::Height,
            round: Round,
            value_id: ValueId<Ctx>,
            reply_to: RpcReplyPort<Option<Ctx::Extension>>,
        },
        VerifyVoteExtension {
            height: Ctx::Height,
            round: Round,
            value_id: ValueId<Ctx>,
            extension: Ctx::Extension,
            reply_to: RpcReplyPort<Result<(), VoteExtensionError>>,
        },
        RestreamValue {
            height: Ctx::Height,
            round: Round,
            valid_round: Round,
            address: Ctx::Address,
            value_id: ValueId<Ctx>,
        },
        GetHistoryMinHeight {
            reply_to: RpcReplyPort<Ctx::Height>,
        },
        ReceivedProposalPart {
            from: PeerId,
            part: StreamMessage<Ctx::ProposalPart>,
            reply_to: RpcReplyPort<ProposedValue<Ctx>>,
        },
        GetValidatorSet {
            height: Ctx::Height,
            reply_to: RpcReplyPort<Ctx::ValidatorSet>,
        },
        Decided {
            certificate: CommitCertificate<Ctx>,
            extensions: VoteExtensions<Ctx>,
            consensus: ConsensusRef<Ctx>,
        },
        GetDecidedValue {
            height: Ctx::Height,
            reply_to: RpcReplyPort<Option<RawDecidedValue<Ctx>>>,
        },
        ProcessSyncedValue {
            height: Ctx::Height,
            round: Round,
            validator_address: Ctx::Address,
            value_bytes: Bytes,
            reply_to: RpcReplyPort<ProposedValue<Ctx>>,
        },
        PeerJoined { peer_id: PeerId },
        PeerLeft { peer_id: PeerId },
    }
    impl<Ctx: Context> Debug for HostMsg<Ctx> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("HostMsg")
        }
    }
    pub type HostRef<Ctx> = ActorRef<HostMsg<Ctx>>;
}

pub mod wal {
    use crate::codec::Codec;
    use crate::core_consensus::SignedConsensusMsg;
    use crate::metrics::SharedRegistry;
    use informalsystems_malachitebft_core_types::*;
    use ractor::{Actor, ActorProcessingErr, ActorRef};
    use std::marker::PhantomData;
    use std::path::PathBuf;

    pub trait WalCodec<Ctx: Context>: Codec<SignedConsensusMsg<Ctx>> {}
    impl<Ctx: Context, C: Codec<SignedConsensusMsg<Ctx>>> WalCodec<Ctx> for C {}

    pub struct WalEntry<Ctx: Context>(pub SignedConsensusMsg<Ctx>);

    /// Ask for the path: the vote record of the engine is kept in the simulated
    /// durable store under that path (see `engine::consensus::durable`).
    pub enum WalMsg {
        Path(ractor::RpcReplyPort<PathBuf>),
    }
    pub type WalRef<Ctx> = ActorRef<WalMsgFor<Ctx>>;
    pub struct WalMsgFor<Ctx>(pub WalMsg, pub PhantomData<fn() -> Ctx>);

    pub struct Wal<Ctx>(PhantomData<fn() -> Ctx>);
    impl<Ctx: Context> Wal<Ctx> {
        pub async fn spawn<C: WalCodec<Ctx>>(
            _ctx: &Ctx,
            _codec: C,
            path: PathBuf,
            _metrics: SharedRegistry,
            _span: tracing::Span,
        ) -> Result<WalRef<Ctx>, ractor::SpawnErr> {
            let (r, _) = Actor::spawn(None, Wal::<Ctx>(PhantomData), path).await?;
            Ok(r)
        }
    }
    #[async_trait::async_trait]
    impl<Ctx: Context> Actor for Wal<Ctx> {
        type Msg = WalMsgFor<Ctx>;
        type State = PathBuf;
        type Arguments = PathBuf;
        async fn pre_start(&self, _: ActorRef<Self::Msg>, a: PathBuf) -> Result<PathBuf, ActorProcessingErr> {
            Ok(a)
        }
        async fn handle(&self, _: ActorRef<Self::Msg>, m: Self::Msg, s: &mut PathBuf) -> Result<(), ActorProcessingErr> {
            match m.0 {
                WalMsg::Path(r) => {
                    let _ = r.send(s.clone());
                }
            }
            Ok(())
        }
    }
}

pub mod sync {
    use super::host::{HostMsg, HostRef};
    use super::network::{NetworkEvent, NetworkMsg, NetworkRef, Status};
    use super::util::ticker::ticker;
    use super::util::timers::{TimeoutElapsed, TimerScheduler};
    use crate::codec::Codec;
    use crate::sync::{self as sync, *};
    use informalsystems_malachitebft_core_types::*;
    use ractor::{Actor, ActorProcessingErr, ActorRef};
    use rand::SeedableRng;
    use std::collections::HashMap;
    use std::time::Duration;
    use tokio::task::JoinHandle;

    pub trait SyncCodec<Ctx: Context>:
        Codec<sync::Status<Ctx>> + Codec<Request<Ctx>> + Codec<Response<Ctx>>
    {
    }
    impl<Ctx: Context, C> SyncCodec<Ctx> for C where
        C: Codec<sync::Status<Ctx>> + Codec<Request<Ctx>> + Codec<Response<Ctx>>
    {
    }

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Timeout {
        Request(OutboundRequestId),
    }
    pub enum Msg<Ctx: Context> {
        Tick,
        NetworkEvent(NetworkEvent<Ctx>),
        Decided(Ctx::Height),
        StartedHeight(Ctx::Height),
        GotDecidedBlock(InboundRequestId, Ctx::Height, Option<RawDecidedValue<Ctx>>),
        InvalidCertificate(crate::peer::PeerId, CommitCertificate<Ctx>),
        TimeoutElapsed(TimeoutElapsed<Timeout>),
    }
    impl<Ctx: Context> From<NetworkEvent<Ctx>> for Msg<Ctx> {
        fn from(e: NetworkEvent<Ctx>) -> Self {
            Msg::NetworkEvent(e)
        }
    }
    impl<Ctx: Context> From<TimeoutElapsed<Timeout>> for Msg<Ctx> {
        fn from(e: TimeoutElapsed<Timeout>) -> Self {
            Msg::TimeoutElapsed(e)
        }
    }
    pub type SyncRef<Ctx> = ActorRef<Msg<Ctx>>;

    #[derive(Debug, Clone)]
    pub struct Params {
        pub status_update_interval: Duration,
        pub request_timeout: Duration,
    }

    pub struct Sync<Ctx: Context> {
        gossip: NetworkRef<Ctx>,
        host: HostRef<Ctx>,
        params: Params,
        metrics: Metrics,
    }
    pub struct State<Ctx: Context> {
        sync: sync::State<Ctx>,
        timers: TimerScheduler<Timeout>,
        inflight: HashMap<OutboundRequestId, (crate::peer::PeerId, Request<Ctx>)>,
        ticker: JoinHandle<()>,
    }
    impl<Ctx: Context> Sync<Ctx> {
        pub async fn spawn(
            _ctx: Ctx,
            gossip: NetworkRef<Ctx>,
            host: HostRef<Ctx>,
            params: Params,
            metrics: Metrics,
            _span: tracing::Span,
        ) -> Result<SyncRef<Ctx>, ractor::SpawnErr> {
            let (r, _) = Actor::spawn(None, Sync { gossip, host, params, metrics }, ()).await?;
            Ok(r)
        }
        async fn input(&self, me: &ActorRef<Msg<Ctx>>, st: &mut State<Ctx>, i: Input<Ctx>) -> Result<(), ActorProcessingErr> {
            for e in sync::step(&mut st.sync, &self.metrics, i) {
                match e {
                    Effect::BroadcastStatus(h) => {
                        let min = ractor::call!(self.host, |reply_to| HostMsg::GetHistoryMinHeight { reply_to })?;
                        self.gossip.cast(NetworkMsg::BroadcastStatus(Status::new(h, min)))?;
                    }
                    Effect::SendValueRequest(peer, r) => {
                        let request = Request::ValueRequest(r);
                        if let Ok(id) = ractor::call!(self.gossip, |reply| NetworkMsg::OutgoingRequest(peer, request.clone(), reply)) {
                            st.timers.start_timer(Timeout::Request(id.clone()), self.params.request_timeout);
                            st.inflight.insert(id, (peer, request));
                        }
                    }
                    Effect::SendValueResponse(id, r) => {
                        self.gossip.cast(NetworkMsg::OutgoingResponse(id, Response::ValueResponse(r)))?;
                    }
                    Effect::GetDecidedValue(id, height) => {
                        self.host.call_and_forward(
                            |reply_to| HostMsg::GetDecidedValue { height, reply_to },
                            me,
                            move |v| Msg::GotDecidedBlock(id, height, v),
                            None,
                        )?;
                    }
                    Effect::SendVoteSetRequest(..) => {}
                }
            }
            Ok(())
        }
    }
    #[async_trait::async_trait]
    impl<Ctx: Context> Actor for Sync<Ctx> {
        type Msg = Msg<Ctx>;
        type State = State<Ctx>;
        type Arguments = ();
        async fn pre_start(&self, me: ActorRef<Msg<Ctx>>, _: ()) -> Result<State<Ctx>, ActorProcessingErr> {
            self.gossip.cast(NetworkMsg::Subscribe(Box::new(me.clone())))?;
            let ticker = tokio::spawn(ticker(self.params.status_update_interval, me.clone(), || Msg::Tick));
            Ok(State {
                sync: sync::State::new(Box::new(rand::rngs::StdRng::from_entropy())),
                timers: TimerScheduler::new(Box::new(me)),
                inflight: HashMap::new(),
                ticker,
            })
        }
        async fn handle(&self, me: ActorRef<Msg<Ctx>>, m: Msg<Ctx>, st: &mut State<Ctx>) -> Result<(), ActorProcessingErr> {
            let r = match m {
                Msg::Tick => self.input(&me, st, Input::Tick).await,
                Msg::NetworkEvent(NetworkEvent::PeerDisconnected(p)) => {
                    st.sync.peers.remove(&p);
                    Ok(())
                }
                Msg::NetworkEvent(NetworkEvent::Status(peer_id, s)) => {
                    let s = sync::Status { peer_id, height: s.height, history_min_height: s.history_min_height };
                    self.input(&me, st, Input::Status(s)).await
                }
                Msg::NetworkEvent(NetworkEvent::Request(id, from, Request::ValueRequest(r))) => {
                    self.input(&me, st, Input::ValueRequest(id, from, r)).await
                }
                Msg::NetworkEvent(NetworkEvent::Response(id, from, Response::ValueResponse(r))) => {
                    st.timers.cancel(&Timeout::Request(id.clone()));
                    st.inflight.remove(&id);
                    self.input(&me, st, Input::ValueResponse(id, from, r)).await
                }
                Msg::NetworkEvent(_) => Ok(()),
                Msg::Decided(h) => self.input(&me, st, Input::UpdateHeight(h)).await,
                Msg::StartedHeight(h) => self.input(&me, st, Input::StartHeight(h)).await,
                Msg::GotDecidedBlock(id, h, v) => self.input(&me, st, Input::GotDecidedValue(id, h, v)).await,
                Msg::InvalidCertificate(p, c) => self.input(&me, st, Input::InvalidCertificate(p, c)).await,
                Msg::TimeoutElapsed(e) => match st.timers.intercept_timer_msg(e) {
                    Some(Timeout::Request(id)) => match st.inflight.remove(&id) {
                        Some((p, r)) => self.input(&me, st, Input::SyncRequestTimedOut(p, r)).await,
                        None => Ok(()),
                    },
                    None => Ok(()),
                },
            };
            if let Err(e) = r {
                tracing::error!("sync: {e:?}");
            }
            Ok(())
        }
        async fn post_stop(&self, _: ActorRef<Msg<Ctx>>, st: &mut State<Ctx>) -> Result<(), ActorProcessingErr> {
            st.ticker.abort();
            Ok(())
        }
    }
}

pub mod consensus;

//! Simulation stand-in for the malachite engine crates (which cannot be had offline).
//!
//! Names and message shapes follow the real crates as snapchain uses them.  The
//! consensus engine is a compact Tendermint (propose / prevote / precommit with
//! locking, timeouts, commit certificates sorted by voter, a durable vote
//! record), the sync engine is a compact request/response state machine.  They
//! are the *environment* of the code under test, not the code under test.

pub mod codec {
    use bytes::Bytes;
    pub trait Codec<T>: Send + Sync + 'static {
        type Error: std::error::Error + Send + Sync + 'static;
        fn decode(&self, bytes: Bytes) -> Result<T, Self::Error>;
        fn encode(&self, msg: &T) -> Result<Bytes, Self::Error>;
    }
}

pub mod metrics {
    pub use prometheus_client as prometheus;
    pub use prometheus_client::registry::Registry;
    use std::sync::{Arc, Mutex, OnceLock};

    #[derive(Clone)]
    pub struct SharedRegistry(Arc<Mutex<Registry>>);
    impl SharedRegistry {
        pub fn global() -> &'static Self {
            static G: OnceLock<SharedRegistry> = OnceLock::new();
            G.get_or_init(|| SharedRegistry(Arc::new(Mutex::new(Registry::default()))))
        }
        pub fn new(r: Registry) -> Self {
            SharedRegistry(Arc::new(Mutex::new(r)))
        }
        pub fn with_prefix<A>(&self, prefix: impl AsRef<str>, f: impl FnOnce(&mut Registry) -> A) -> A {
            let mut g = self.0.lock().unwrap();
            f(g.sub_registry_with_prefix(prefix))
        }
        pub fn write<A>(&self, f: impl FnOnce(&mut Registry) -> A) -> A {
            f(&mut self.0.lock().unwrap())
        }
        pub fn read<A>(&self, f: impl FnOnce(&Registry) -> A) -> A {
            f(&self.0.lock().unwrap())
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Metrics;
    impl Metrics {
        pub fn new() -> Self {
            Metrics
        }
        pub fn register(_: &SharedRegistry) -> Self {
            Metrics
        }
    }
}

pub mod config {
    use std::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct TimeoutConfig {
        pub timeout_propose: Duration,
        pub timeout_propose_delta: Duration,
        pub timeout_prevote: Duration,
        pub timeout_prevote_delta: Duration,
        pub timeout_precommit: Duration,
        pub timeout_precommit_delta: Duration,
        pub timeout_commit: Duration,
        pub timeout_step: Duration,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ValueSyncConfig {
        pub enabled: bool,
        pub status_update_interval: Duration,
        pub request_timeout: Duration,
        pub max_request_size: usize,
        pub max_response_size: usize,
    }
    impl Default for ValueSyncConfig {
        fn default() -> Self {
            Self {
                enabled: true,
                status_update_interval: Duration::from_secs(10),
                request_timeout: Duration::from_secs(10),
                max_request_size: 1 << 20,
                max_response_size: 10 << 20,
            }
        }
    }
}

pub mod peer {
    use libp2p::PeerId as Libp2pPeerId;
    use std::fmt;

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct PeerId(Libp2pPeerId);
    #[derive(Debug)]
    pub struct ParseError(String);
    impl fmt::Display for ParseError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for ParseError {}
    impl PeerId {
        pub fn from_bytes(b: &[u8]) -> Result<Self, ParseError> {
            Libp2pPeerId::from_bytes(b).map(PeerId).map_err(|e| ParseError(e.to_string()))
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            self.0.to_bytes()
        }
        pub fn random() -> Self {
            PeerId(Libp2pPeerId::random())
        }
    }
    impl fmt::Display for PeerId {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Display::fmt(&self.0, f)
        }
    }
    impl fmt::Debug for PeerId {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::str::FromStr for PeerId {
        type Err = ParseError;
        fn from_str(s: &str) -> Result<Self, ParseError> {
            s.parse::<Libp2pPeerId>().map(PeerId).map_err(|e| ParseError(e.to_string()))
        }
    }
    pub trait PeerIdExt {
        fn to_libp2p(&self) -> Libp2pPeerId;
        fn from_libp2p(p: &Libp2pPeerId) -> Self;
    }
    impl PeerIdExt for PeerId {
        fn to_libp2p(&self) -> Libp2pPeerId {
            self.0
        }
        fn from_libp2p(p: &Libp2pPeerId) -> Self {
            PeerId(*p)
        }
    }
}

pub mod network {
    pub use crate::peer::{PeerId, PeerIdExt};
    pub use libp2p::gossipsub::MessageId;
    pub use libp2p::Multiaddr;
    use bytes::Bytes;
    use std::fmt;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Channel {
        Consensus,
        ProposalParts,
        Sync,
    }
    impl fmt::Display for Channel {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(self, f)
        }
    }
    #[derive(Clone, Debug)]
    pub enum Event {
        Listening(Multiaddr),
        PeerConnected(PeerId),
        PeerDisconnected(PeerId),
        Message(Channel, PeerId, Bytes),
        Sync(crate::sync::RawMessage),
    }
}

pub mod core_consensus;
pub mod engine;
pub mod sync;

pub mod wal {
    //! Only what the (unbuilt) dump tool needs by name.
    pub struct Log;
}

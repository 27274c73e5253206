//! Simulation stand-in; see ../../sim
pub use malachite_sim::metrics::*;

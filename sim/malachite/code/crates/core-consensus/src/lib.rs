//! Simulation stand-in; see ../../sim
pub use malachite_sim::core_consensus::*;

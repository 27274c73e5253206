//! Simulation stand-in; see ../../sim
pub use malachite_sim::sync::*;
pub use malachite_sim::process;

//! Deterministic, choice-driven runtime: every source of nondeterminism of the
//! code under test (task interleaving, select branch order, time, randomness,
//! storage faults) is a recorded choice that an explorer enumerates.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod explore;
pub mod heap;
pub mod io;
pub mod sync;
pub mod sys;
pub mod task;
pub mod timer;

pub use explore::*;
pub use task::*;

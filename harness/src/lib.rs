//! Shared machinery of the runtime monitors: case runner with crash breadcrumbs,
//! hang watchdog, event counters, PRNG, and instrumented element types.
#![allow(clippy::all)]

pub mod algos;
pub mod conform;
pub mod elem;
pub mod engine;
pub mod obs;
#[cfg(feature = "ptr")]
pub mod pengine;
pub mod run;

pub use elem::*;
pub use obs::*;
pub use run::*;

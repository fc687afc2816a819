//! Runtime monitors for packed_struct: a bit-level reference model, workload generation,
//! event counting and verdict reporting. Everything here talks to the library through its
//! public API only; the model shares no code with it.
#![allow(clippy::all)]

pub mod model;
pub mod rng;
pub mod report;
pub mod ops;
pub mod mon;
pub mod raws;
pub mod ints;
pub mod seq;
pub mod enums;
pub mod basic;
#[cfg(feature = "errors")]
pub mod err;
#[cfg(feature = "errors")]
pub mod pure;

pub use model::*;
pub use ops::*;
pub use report::*;
pub use rng::Rng;
pub use packed_struct;

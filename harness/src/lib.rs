//! Shared parts of the conformance harness: it interprets what the TLA+ specification prints and
//! compares it with the real code.
pub mod cursor;
pub mod gen;
pub mod json;
pub mod rng;
pub mod machine;
pub mod mock;
pub mod number;
pub mod report;
pub mod visit;
pub mod writer;

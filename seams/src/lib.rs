//! What the simulator controls below the code under test.  This crate is never instrumented.
pub mod alloc;
pub mod edges;
pub mod env;
pub mod meter;
pub mod sched;

//! The seams of the simulator on the 32-bit node: one thread, no clock, memory bounded by the host.
pub mod alloc {
    pub fn limit(_: usize) {}
    pub fn unlimited() {}
}
pub mod env {
    pub fn begin(_: u64) {}
    pub fn end() {}
    pub fn advance(_: u64) {}
}
pub mod sched {
    use std::sync::atomic::AtomicU64;
    pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
    pub static POINTS: AtomicU64 = AtomicU64::new(0);
    pub fn point() {}
    pub fn begin(_: usize, _: u64, _: u64) {}
    pub fn enter(_: u32) {}
    pub fn leave() {}
    pub fn go() {}
    pub fn trace() -> u64 {
        0
    }
}

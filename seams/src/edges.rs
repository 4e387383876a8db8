//! Callbacks of the instrumented build: the code under test calls one at every edge of its control flow.
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

const MAX: usize = 1 << 16;
static HIT: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];
static N: AtomicU32 = AtomicU32::new(0);

/// # Safety
/// called by the instrumentation with the bounds of the guard section
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        *p = 1 + N.fetch_add(1, Relaxed);
        p = p.add(1);
    }
}
/// # Safety
/// called by the instrumentation
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < MAX {
        HIT[i].store(1, Relaxed);
    }
    crate::meter::edge();
    crate::sched::point();
}
/// edges the instrumentation knows
pub fn known() -> u64 {
    N.load(Relaxed) as u64
}
/// edges reached so far
pub fn reached() -> impl Iterator<Item = usize> {
    (0..MAX).filter(|i| HIT[*i].load(Relaxed) != 0)
}

//! Allocation accounting: a run that allocates past its limit ends the worker with status 77.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

pub struct Counting;
fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    if l > LIMIT.load(Relaxed) {
        let m = b"MEMLIMIT exceeded\n";
        unsafe {
            libc::write(2, m.as_ptr() as *const libc::c_void, m.len());
            libc::_exit(77);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        crate::sched::point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        crate::meter::moved(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            add(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        crate::sched::point();
        crate::meter::moved(l.size().min(n));
        System.realloc(p, l, n)
    }
}
/// allow `extra` bytes more than are live now
pub fn limit(extra: usize) {
    if crate::sched::in_task() {
        return; // several runs share the counter
    }
    LIMIT.store(LIVE.load(Relaxed).saturating_add(extra), Relaxed);
}
pub fn unlimited() {
    LIMIT.store(usize::MAX, Relaxed);
}

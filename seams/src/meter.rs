//! The cost clock: virtual time that passes while the code under test works.  One tick per control flow edge of
//! the instrumented code and one per 16 bytes moved, cleared or reallocated.  It depends on the code and its
//! input only, never on the machine.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

thread_local! {
    /// the clock is that of the thread that is being measured, no other
    static MINE: Cell<bool> = const { Cell::new(false) };
}
static ON: AtomicBool = AtomicBool::new(false);
static EDGES: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);

pub fn edge() {
    if ON.load(Relaxed) && MINE.with(Cell::get) {
        EDGES.store(EDGES.load(Relaxed) + 1, Relaxed);
    }
}
pub fn moved(n: usize) {
    if ON.load(Relaxed) && MINE.with(Cell::get) {
        BYTES.store(BYTES.load(Relaxed) + n as u64, Relaxed);
    }
}
/// the cost of a call
pub fn cost<T>(f: impl FnOnce() -> T) -> (T, u64) {
    EDGES.store(0, Relaxed);
    BYTES.store(0, Relaxed);
    MINE.with(|m| m.set(true));
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    MINE.with(|m| m.set(false));
    (r, EDGES.load(Relaxed) + BYTES.load(Relaxed) / 16)
}

/// libc's block operations, so that moving memory takes virtual time as well
#[cfg(seams_edges)]
mod block {
    use std::arch::asm;
    /// # Safety
    /// as memcpy(3)
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        super::moved(n);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        d
    }
    /// # Safety
    /// as memmove(3)
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        super::moved(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
                inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
    /// # Safety
    /// as memset(3)
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        super::moved(n);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }
}

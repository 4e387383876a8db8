//! Clock and entropy.  While a simulated run is going on, every read of a clock and every request for
//! random bytes in this process is answered from the run's seed; outside of runs the real ones answer.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
static NOW: AtomicU64 = AtomicU64::new(0);
static RND: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);

/// starts a run: its own epoch, its own entropy
pub fn begin(seed: u64) {
    RND.store(seed ^ 0x9e37_79b9_7f4a_7c15, SeqCst);
    // the run takes place somewhere within a century
    NOW.store(1_000_000_000_000_000_000 + next() % 3_000_000_000_000_000_000, SeqCst);
    ON.store(true, SeqCst);
}
pub fn end() {
    ON.store(false, SeqCst);
}
/// virtual time passes
pub fn advance(ns: u64) {
    NOW.fetch_add(ns, SeqCst);
}
fn next() -> u64 {
    let mut z = RND.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst).wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
fn now() -> u64 {
    CLOCK_READS.fetch_add(1, SeqCst);
    // between two reads anything from nothing to a stall of a second goes by
    let d = match next() % 8 {
        0 => 0,
        7 => next() % 1_000_000_000,
        _ => next() % 20_000,
    };
    NOW.fetch_add(d, SeqCst) + d
}
unsafe fn real_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    crate::sched::raw_syscall(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0) as libc::c_int
}
/// the machine's clock, in milliseconds
pub fn real_ms(id: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { real_gettime(id, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
/// # Safety
/// as clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !ON.load(SeqCst) {
        return real_gettime(id, ts);
    }
    let n = now();
    (*ts).tv_sec = (n / 1_000_000_000) as i64;
    (*ts).tv_nsec = (n % 1_000_000_000) as i64;
    0
}
/// # Safety
/// as gettimeofday(2)
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
/// # Safety
/// as time(2)
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
/// # Safety
/// as getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut libc::c_void, n: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if !ON.load(SeqCst) {
        return crate::sched::raw_syscall(libc::SYS_getrandom, p as i64, n as i64, flags as i64, 0, 0, 0) as libc::ssize_t;
    }
    ENTROPY_READS.fetch_add(1, SeqCst);
    for i in 0..n {
        *(p as *mut u8).add(i) = next() as u8;
    }
    n as libc::ssize_t
}

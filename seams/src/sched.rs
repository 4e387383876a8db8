//! Cooperative scheduler for several threads of this process: exactly one of them runs.  Every edge of the
//! instrumented code, every allocation, every transfer of a simulated file and every step boundary is a point
//! at which the seed may decide to let another one continue.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

thread_local! {
    static TASK: Cell<u32> = const { Cell::new(0) };
}
static TURN: AtomicU32 = AtomicU32::new(0);
/// one word per task to sleep on
static BELL: [AtomicU32; 65] = [const { AtomicU32::new(0) }; 65];
static ALIVE: AtomicU64 = AtomicU64::new(0);
static RND: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);
static GAP: AtomicU64 = AtomicU64::new(1);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
static TRACE: AtomicU64 = AtomicU64::new(0);

fn next() -> u64 {
    let mut x = RND.load(SeqCst);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    RND.store(x, SeqCst);
    x.wrapping_mul(0x2545_f491_4f6c_dd1d)
}
/// # Safety
/// as syscall(2)
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
fn futex(word: &AtomicU32, op: i32, v: i64) {
    unsafe { raw_syscall(libc::SYS_futex, word as *const _ as i64, (op | libc::FUTEX_PRIVATE_FLAG) as i64, v, 0, 0, 0) };
}
fn give(to: u32) {
    TURN.store(to, SeqCst);
    BELL[to as usize].fetch_add(1, SeqCst);
    futex(&BELL[to as usize], libc::FUTEX_WAKE, 1);
}
/// a run with tasks 1..=n begins; up to 2^spread points between decisions, short distances as likely as long ones
pub fn begin(n: usize, seed: u64, spread: u64) {
    RND.store(seed | 1, SeqCst);
    GAP.store(spread.clamp(1, 40), SeqCst);
    LEFT.store(1, SeqCst);
    ALIVE.store((1u64 << n) - 1, SeqCst);
    TRACE.store(0, SeqCst);
    POINTS.store(0, SeqCst);
    SWITCHES.store(0, SeqCst);
    TURN.store(0, SeqCst);
}
/// the calling thread is task `id` (1-based); returns when it is its turn
pub fn enter(id: u32) {
    TASK.with(|t| t.set(id));
    await_turn(id);
}
/// lets the first task start; call when all of them have been created
pub fn go() {
    let first = pick();
    give(first);
}
fn pick() -> u32 {
    let a = ALIVE.load(SeqCst);
    let n = a.count_ones() as u64;
    if n == 0 {
        return 0;
    }
    let mut k = next() % n;
    for i in 0..64 {
        if a >> i & 1 == 1 {
            if k == 0 {
                return i + 1;
            }
            k -= 1;
        }
    }
    0
}
fn await_turn(id: u32) {
    loop {
        let b = BELL[id as usize].load(SeqCst);
        if TURN.load(SeqCst) == id {
            return;
        }
        futex(&BELL[id as usize], libc::FUTEX_WAIT, b as i64);
    }
}
fn hand_over(id: u32, to: u32) {
    TRACE.store((TRACE.load(SeqCst) ^ ((to as u64) << 40 ^ POINTS.load(SeqCst))).wrapping_mul(0x100_0000_01b3), SeqCst);
    if to == id {
        return;
    }
    SWITCHES.fetch_add(1, SeqCst);
    give(to);
    await_turn(id);
}
#[inline]
pub fn point() {
    // threads that are going away have no task any more
    let id = TASK.try_with(|t| t.get()).unwrap_or(0);
    if id != 0 {
        at_point(id);
    }
}
#[cold]
fn at_point(id: u32) {
    POINTS.store(POINTS.load(SeqCst) + 1, SeqCst);
    let l = LEFT.load(SeqCst);
    if l > 1 {
        LEFT.store(l - 1, SeqCst);
        return;
    }
    let most = 1u64 << (next() % GAP.load(SeqCst));
    LEFT.store(1 + next() % most, SeqCst);
    let to = pick();
    hand_over(id, to);
}
pub fn in_task() -> bool {
    TASK.with(|t| t.get()) != 0
}
/// the task is over
pub fn leave() {
    let id = TASK.with(|t| t.replace(0));
    if id == 0 {
        return;
    }
    ALIVE.fetch_and(!(1 << (id - 1)), SeqCst);
    give(pick());
}
pub fn trace() -> u64 {
    TRACE.load(SeqCst)
}

/// A task that would sleep on a lock another task holds lets that one continue instead: the wait ends at once, as
/// a spurious wake-up would end it, and the caller looks again.
///
/// # Safety
/// as syscall(2)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        let op = (b as i32) & 0x7f;
        let id = TASK.try_with(|t| t.get()).unwrap_or(0);
        if id != 0 && (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) {
            let others = ALIVE.load(SeqCst) & !(1 << (id - 1));
            if others != 0 {
                let w = &*(a as *const AtomicU32);
                if w.load(SeqCst) == c as u32 {
                    // anyone but the caller
                    let k = others.count_ones() as u64;
                    let mut j = next() % k;
                    for i in 0..64u32 {
                        if others >> i & 1 == 1 {
                            if j == 0 {
                                hand_over(id, i + 1);
                                break;
                            }
                            j -= 1;
                        }
                    }
                    return 0;
                }
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
        }
    }
    raw_syscall(n, a, b, c, d, e, f)
}

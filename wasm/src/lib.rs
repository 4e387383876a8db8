//! The 32-bit node: the simulator's sessions and adhoc_audio itself, compiled for wasm32 and driven by host.mjs.
#![allow(dead_code, unexpected_cfgs)]
#[path = "../../sim/src/exec.rs"]
mod exec;
#[path = "../../sim/src/fmath.rs"]
mod fmath;
#[path = "../../sim/src/io.rs"]
mod io;
#[path = "../../sim/src/plan.rs"]
mod plan;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/sig.rs"]
mod sig;

macro_rules! absent {
    ($($m:ident $($f:ident)*;)*) => {$(
        mod $m {
            $(pub fn $f(_: &crate::plan::Plan, _: bool) -> crate::exec::Outcome {
                unreachable!()
            })*
        }
    )*};
}
// only sessions of one thread are sent here
absent! { skew run; econ cost size; cycle run; cli run; arch run; big run; }
mod long {
    pub fn run(_: &crate::plan::Step, _: &str) -> Result<u64, crate::exec::Viol> {
        unreachable!()
    }
    pub fn run_wav(_: &crate::plan::Step, _: &str) -> Result<u64, crate::exec::Viol> {
        unreachable!()
    }
}
mod zygote {
    pub fn solo(_: &crate::plan::Plan, _: i64, _: u64) -> Result<crate::exec::Obs, crate::exec::Viol> {
        unreachable!()
    }
}

pub static RUN_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn take_panic() -> Option<(String, String)> {
    None
}

use std::sync::Mutex;
static IN: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static OUT: Mutex<String> = Mutex::new(String::new());

/// makes room for a plan of `n` bytes
#[no_mangle]
pub extern "C" fn input(n: usize) -> *mut u8 {
    let mut g = IN.lock().unwrap();
    *g = vec![0; n];
    g.as_mut_ptr()
}
#[no_mangle]
pub extern "C" fn out_ptr() -> *const u8 {
    OUT.lock().unwrap().as_ptr()
}
#[no_mangle]
pub extern "C" fn out_len() -> usize {
    OUT.lock().unwrap().len()
}
/// executes the plan; what it did is found at `out_ptr`, also when it ended in a trap
#[no_mangle]
pub extern "C" fn run(verbose: i32) {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *OUT.lock().unwrap() = format!("panic\t{loc}: {}", msg.replace('\n', " "));
    }));
    let text = std::mem::take(&mut *IN.lock().unwrap());
    let p = match String::from_utf8(text).map_err(|e| e.to_string()).and_then(|t| plan::Plan::parse(&t)) {
        Ok(p) => p,
        Err(e) => panic!("bad plan: {e}"),
    };
    let o = exec::execute(&p, verbose != 0);
    let mut s = match &o.viol {
        Some((c, d)) => format!("{c}\t{}", d.replace('\n', " ")),
        None => "ok\t".into(),
    };
    s += &format!("\n{:016x} {:016x}", o.trace, o.shape);
    for l in &o.log {
        s.push('\n');
        s += l;
    }
    *OUT.lock().unwrap() = s;
}

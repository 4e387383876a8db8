//! The big-endian node: the simulator's sessions and adhoc_audio itself, interpreted by Miri for a machine whose
//! bytes are in the other order, one process for each session.
#![allow(dead_code, unexpected_cfgs)]
#[path = "../../sim/src/exec.rs"]
mod exec;
#[path = "../../sim/src/fmath.rs"]
mod fmath;
#[path = "../../sim/src/io.rs"]
mod io;
#[path = "../../sim/src/plan.rs"]
mod plan;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/sig.rs"]
mod sig;

macro_rules! absent {
    ($($m:ident $($f:ident)*;)*) => {$(
        mod $m {
            $(pub fn $f(_: &crate::plan::Plan, _: bool) -> crate::exec::Outcome {
                unreachable!()
            })*
        }
    )*};
}
// only sessions of one thread are sent here
absent! { skew run; econ cost size; cycle run; cli run; arch run; big run; }
mod long {
    pub fn run(_: &crate::plan::Step, _: &str) -> Result<u64, crate::exec::Viol> {
        unreachable!()
    }
    pub fn run_wav(_: &crate::plan::Step, _: &str) -> Result<u64, crate::exec::Viol> {
        unreachable!()
    }
}
mod zygote {
    pub fn solo(_: &crate::plan::Plan, _: i64, _: u64) -> Result<crate::exec::Obs, crate::exec::Viol> {
        unreachable!()
    }
}

pub static RUN_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static LAST: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);
pub fn take_panic() -> Option<(String, String)> {
    LAST.lock().unwrap_or_else(|e| e.into_inner()).take()
}


/// executes the plan given as the argument and writes what it did to standard output
pub fn main() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg.replace('\n', " ")));
    }));
    let arg: Vec<String> = std::env::args().skip(1).collect();
    let p = match plan::Plan::parse(&arg[1]) {
        Ok(p) => p,
        Err(e) => panic!("bad plan: {e}"),
    };
    let o = exec::execute(&p, arg[0] == "1");
    let mut s = match &o.viol {
        Some((c, d)) if c.starts_with("panic") => format!("panic\t{c}: {}", d.replace('\n', " ")),
        Some((c, d)) => format!("{c}\t{}", d.replace('\n', " ")),
        None => "ok\t".into(),
    };
    s += &format!("\n{:016x} {:016x}", o.trace, o.shape);
    for l in &o.log {
        s.push('\n');
        s += l;
    }
    s += "\nend\n";
    print!("{s}");
}

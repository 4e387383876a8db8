//! C26: the same session on this node and on a big-endian one (the library interpreted by Miri for s390x), which
//! also notices accesses that only some machines allow.  Whatever the two let their callers see has to be the same.
use crate::arch::{differential, Answer, LIKE, NOT};
use crate::exec::Outcome;
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix2, Rng};
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

/// seconds the interpreter may take for one session
const LIMIT_S: u64 = 25;
const STEPS: usize = 20;

pub fn generate(base_seed: u64, index: u64) -> Plan {
    let mut r = Rng::new(mix2(mix2(base_seed, hash_str("C26")), index));
    let mut w = r.below(LIKE.iter().map(|e| e.1).sum());
    let like = LIKE.iter().find(|e| e.1 > w || { w -= e.1; false }).unwrap().0;
    let mut inner = crate::gen::generate(&format!("C{like:02}"), base_seed, r.u64() >> 24);
    inner.steps.retain(|s| !NOT.contains(&s.op));
    let k = inner.steps.len();
    if k > STEPS {
        inner.steps.drain(STEPS / 2..k - STEPS / 2);
    }
    let mut steps = vec![Step::new(0, "node", &[("as", like)])];
    steps.extend(inner.steps.into_iter().map(small));
    Plan { prop: "C26".into(), seed: base_seed, index, steps, notes: vec![] }
}
/// sizes an interpreter can handle
fn small(mut s: Step) -> Step {
    for (k, v) in s.kv.iter_mut() {
        let most = match &**k {
            "ch" => 5,
            "n" if s.op.ends_with("enc") => 32,
            "n" => 64,
            "buf" | "lo" | "hi" => 100,
            "trail" | "x" => 30,
            _ => continue,
        };
        if *v > most {
            *v = most - *v % 4;
        }
    }
    s
}

fn remote(plan: &Plan, verbose: bool) -> Answer {
    let mut c = Command::new("sh");
    c.arg(crate::root().join("target/big.sh")).arg((1 + mix2(plan.seed, plan.index) % 1_000_000_000).to_string());
    c.arg(if verbose { "1" } else { "0" }).arg(plan.text()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: LIMIT_S, rlim_max: LIMIT_S };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("the interpreter cannot be started");
    let mut err = child.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut out = Vec::new();
    let _ = child.stdout.take().unwrap().read_to_end(&mut out);
    let status = child.wait().expect("wait");
    let (out, err) = (String::from_utf8_lossy(&out).into_owned(), errs.join().unwrap_or_default());
    use std::os::unix::process::ExitStatusExt;
    if matches!(status.signal(), Some(libc::SIGKILL | libc::SIGXCPU)) {
        return ("slow".into(), String::new(), String::new(), vec![]);
    }
    let l: Vec<&str> = out.lines().collect();
    if l.last() != Some(&"end") || l.len() < 3 {
        let what = err.lines().find(|l| l.starts_with("error")).unwrap_or("it died");
        let at = err.lines().filter_map(|l| l.trim().strip_prefix("--> ").or(l.trim().strip_prefix("at "))).find(|l| !l.contains("/library/")).unwrap_or("");
        let class = if what.contains("Undefined Behavior") { "undefined-behaviour" } else { "died" };
        return (class.into(), format!("{what} {at}"), String::new(), vec![]);
    }
    let (class, detail) = l[0].split_once('\t').unwrap_or(("", l[0]));
    (class.into(), detail.into(), l[1].into(), l[2..l.len() - 1].iter().map(|s| s.to_string()).collect())
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    differential(plan, verbose, "big-endian node", true, &remote)
}

//! C25: the same session on a 64-bit node (this process) and on a 32-bit one (the library compiled for wasm32 and
//! run by node(1), driven over a pipe).  Whatever the two let their callers see has to be the same.
use crate::exec::{self, Outcome};
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix2, Rng};
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// whose sessions are executed, and how often
pub const LIKE: [(i64, u64); 15] =
    [(1, 3), (2, 2), (3, 3), (4, 5), (5, 3), (6, 2), (7, 2), (8, 3), (9, 6), (10, 1), (11, 3), (12, 3), (13, 4), (17, 3), (18, 2)];
/// one thread, and recordings that fit a browser's memory
pub const NOT: [&str; 7] = ["long", "wlong", "thread", "par", "next", "stretch", "skew"];
/// what makes the contents of a file wrong, not only incomplete
const DAMAGE: [&str; 8] = ["poke", "fill", "move", "field", "garbage", "splice", "number", "stretch"];
/// processor seconds the 32-bit node may take for one session
const CPU_S: u64 = 45;

pub fn generate(base_seed: u64, index: u64) -> Plan {
    let mut r = Rng::new(mix2(mix2(base_seed, hash_str("C25")), index));
    if r.chance(0.001) {
        return Plan { prop: "C25".into(), seed: base_seed, index, steps: hours(&mut r), notes: vec![] };
    }
    let mut w = r.below(LIKE.iter().map(|e| e.1).sum());
    let like = LIKE.iter().find(|e| e.1 > w || { w -= e.1; false }).unwrap().0;
    let mut inner = crate::gen::generate(&format!("C{like:02}"), base_seed, r.u64() >> 24);
    inner.steps.retain(|s| !NOT.contains(&s.op));
    let mut steps = vec![Step::new(0, "node", &[("as", like)])];
    steps.extend(inner.steps);
    Plan { prop: "C25".into(), seed: base_seed, index, steps, notes: vec![] }
}

/// an hour or two at a telephone's rate, or minutes at a studio's: more milliseconds times samples than 2^32
fn hours(r: &mut Rng) -> Vec<Step> {
    let wav = r.chance(0.4);
    let (new, enc, dec, seek, save, load) = if wav { ("wnew", "wenc", "wdec", "wseek", "wsave", "wload") } else { ("new", "enc", "dec", "seek", "save", "load") };
    let ch = r.pick(&[1, 1, 2, 3]);
    let rate = r.pick(&[1, 999, 8000, 11_025, 44_100, 48_000, 192_000, 1_000_000, 2_147_483_647, 4_294_967_295]);
    let total = r.range(4_000_000, 5_500_000) / ch;
    let mut out = vec![Step::new(0, "node", &[("as", if wav { 12 } else { 4 })]), Step::new(0, new, &[("s", 1), ("ch", ch), ("rate", rate), ("level", r.range(0, 3))])];
    let (mut have, mut t) = (0, 0);
    while have < total {
        let n = r.log(1, 1_500_000).min(total - have);
        let (sig, seed) = (r.pick(&[0, 1, 5, 7, 10, 12]), (r.u64() >> 34) as i64);
        t += 1000;
        out.push(Step::new(t, enc, &[("s", 1), ("n", n), ("sig", sig), ("seed", seed), ("amp", 20_000)]));
        have += n;
    }
    let mut s = 1;
    if r.chance(0.7) {
        out.push(Step::new(t, save, &[("s", 1), ("f", 1)]));
        out.push(Step::new(t, load, &[("s", 2), ("f", 1)]));
        s = 2;
    }
    for _ in 0..r.range(3, 10) {
        // milliseconds times rate, or times rate and channels, passes a power of two; or anywhere
        let edge = 4_294_967_296i64 / r.pick(&[1000, 1000, 2000, 1000 * ch, 128, 64]) / r.pick(&[1, ch]);
        let f = if r.chance(0.5) { (edge + r.range(-2, 20_000)).max(0) } else { r.range(0, total + total / 8) };
        let ms = (f as i128 * 1000 / rate as i128).min(i64::MAX as i128) as i64;
        t += 1000;
        out.push(Step::new(t, seek, &[("s", s), ("ms", ms)]));
        out.push(Step::new(t, dec, &[("s", s), ("buf", r.log(1, 3000))]));
    }
    out
}

struct Node {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Node {
    fn start() -> Node {
        let root = crate::root();
        let mut c = Command::new("node");
        c.arg(root.join("wasm/host.mjs")).arg(root.join("target/node32.wasm")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("node cannot be started");
        let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        Node { child, to, from }
    }
    /// processor time the node has used
    fn cpu_ms(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        (n(11) + n(12)) * 10
    }
    /// what the node says, or how it failed to
    fn call(&mut self, plan: &str, verbose: bool) -> Result<(bool, String), String> {
        let mut m = (plan.len() as u32).to_le_bytes().to_vec();
        m.push(verbose as u8);
        m.extend(plan.as_bytes());
        let cpu = self.cpu_ms();
        self.to.write_all(&m).map_err(|_| "gone".to_string())?;
        loop {
            use std::os::fd::AsRawFd;
            let mut p = libc::pollfd { fd: self.from.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 500) } > 0 {
                break;
            }
            if self.cpu_ms() - cpu > CPU_S * 1000 {
                return Err("hang".into());
            }
        }
        let mut h = [0; 5];
        self.from.read_exact(&mut h).map_err(|_| "gone".to_string())?;
        let mut b = vec![0; u32::from_le_bytes([h[0], h[1], h[2], h[3]]) as usize];
        self.from.read_exact(&mut b).map_err(|_| "gone".to_string())?;
        Ok((h[4] != 0, String::from_utf8_lossy(&b).into_owned()))
    }
}
thread_local! {
    static NODE: std::cell::RefCell<Option<Node>> = const { std::cell::RefCell::new(None) };
}
fn ask(plan: &str, verbose: bool) -> Result<(bool, String), String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let r = n.get_or_insert_with(Node::start).call(plan, verbose);
        if r.is_err() {
            *n = None;
        }
        r
    })
}

fn remote(plan: &Plan, verbose: bool) -> Answer {
    match ask(&plan.text(), verbose) {
        Err(e) => (e, String::new(), String::new(), vec![]),
        Ok((trapped, text)) => {
            let mut l = text.lines();
            let head = l.next().unwrap_or("");
            let (class, detail) = head.split_once('\t').unwrap_or(("", head));
            let class = if trapped && class != "panic" { "trap" } else { class };
            (class.into(), detail.into(), l.next().unwrap_or("").into(), l.map(String::from).collect())
        }
    }
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    differential(plan, verbose, "32-bit node", false, &remote)
}

/// class and detail, trace and shape, log
pub type Answer = (String, String, String, Vec<String>);

/// the session on this node and on the one called `name`
pub fn differential(plan: &Plan, verbose: bool, name: &str, strict: bool, remote: &dyn Fn(&Plan, bool) -> Answer) -> Outcome {
    let Some(first) = plan.steps.iter().find(|s| s.op == "node") else {
        return Outcome { skipped: Some("no node".into()), ..Default::default() };
    };
    let like = format!("C{:02}", first.get("as"));
    if !LIKE.iter().any(|e| e.0 == first.get("as")) {
        return Outcome { skipped: Some("not a session of one thread".into()), ..Default::default() };
    }
    let steps = plan.steps.iter().filter(|s| s.op != "node" && !NOT.contains(&s.op)).cloned().collect();
    let inner = Plan { prop: like.clone(), seed: plan.seed, index: plan.index, steps, notes: vec![] };
    let mut o = exec::execute(&inner, verbose);
    let (class, detail, sums, log) = remote(&inner, verbose);
    if class == "slow" {
        return Outcome { skipped: Some(format!("too long for the {name}")), ..Default::default() };
    }
    let (mine, why) = match o.viol.take() {
        None => ("ok".to_string(), String::new()),
        Some((c, d)) if c.starts_with("panic") => ("panic".into(), format!("{c}: {d}")),
        Some((c, d)) => (c, d),
    };
    *o.stats.entry(format!("sessions_like_{like}")).or_insert(0) += 1;
    if mine != "ok" {
        // both nodes are judged by the check of that property
        *o.stats.entry("sessions_that_failed_on_this_node".into()).or_insert(0) += 1;
    }
    // what a damaged .adhoc file holds is anybody's guess; the 32-bit node has to get over it just as well
    let damaged = inner.steps.iter().any(|s| DAMAGE.contains(&s.op)) && inner.steps.iter().any(|s| s.op == "load");
    // the bound on the size of a file may depend on the machine, as long as it is one
    let judged = !strict && damaged || !strict && inner.steps.iter().any(|s| s.op == "bound");
    let same = mine == class && (mine != "ok" || judged || sums == format!("{:016x} {:016x}", o.trace, o.shape));
    if !same {
        let what = if mine != class {
            format!("this node: {mine} {why}; {name}: {class} {detail}")
        } else {
            let log = if verbose { log } else { remote(&inner, true).3 };
            let here = if verbose { o.log.clone() } else { exec::execute(&inner, true).log };
            match here.iter().zip(&log).find(|(a, b)| a != b) {
                Some((a, b)) => format!("this node: {a}; {name}: {b}"),
                None => "what the two nodes show differs (contents, not lengths)".into(),
            }
        };
        let class = if mine == class { "nodes-differ".to_string() } else { format!("nodes-differ:{mine}:{class}") };
        o.viol = Some((class, what.chars().take(600).collect()));
    }
    o.trace = mix2(o.trace, hash_str(&sums));
    o.shape = mix2(o.shape, first.get("as") as u64);
    o
}

//! Deterministic simulation of adhoc_audio: seeded search, replay, minimisation, evidence.
mod cli;
mod cycle;
mod econ;
mod arch;
mod big;
mod exec;
#[cfg(feature = "frames")]
mod frames;
mod fmath;
mod gen;
mod io;
mod long;
mod plan;
mod report;
mod rng;
mod sig;
mod skew;
mod zygote;

use plan::Plan;
use std::collections::BTreeSet;
use std::io::{BufRead, Write as _};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: seams::alloc::Counting = seams::alloc::Counting;

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
static PANIC_VERBOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// location and message of the last panic
pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.strip_prefix("/repo/").unwrap_or_else(|| f.rsplit('/').next().unwrap_or(f));
                f.to_string()
            })
            .unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if PANIC_VERBOSE.load(SeqCst) {
            eprintln!("panic at {loc}:{line}: {msg}");
        }
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() {
            *g = Some((loc, format!("line {line}: {msg}")));
        }
    }));
}

// ---------------------------------------------------------------------------------- watchdog

pub static RUN_NO: AtomicU64 = AtomicU64::new(0);
fn cpu_ms() -> u64 {
    seams::env::real_ms(libc::CLOCK_PROCESS_CPUTIME_ID)
}
fn wall_ms() -> u64 {
    seams::env::real_ms(libc::CLOCK_MONOTONIC)
}
/// ends the process with status 78 when one run burns a minute of processor time (or hangs for five minutes)
fn watchdog() {
    // attempts at a smaller failure get less
    let limit = std::env::var("DST_CPU_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(45_000);
    std::thread::spawn(move || {
        let (mut run, mut cpu, mut wall) = (u64::MAX, 0, wall_ms());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let r = RUN_NO.load(SeqCst);
            if r != run {
                (run, cpu, wall) = (r, cpu_ms(), wall_ms());
            } else if cpu_ms() - cpu > limit || wall_ms() - wall > 240_000 {
                eprintln!("WATCHDOG: run does not end");
                unsafe { libc::_exit(78) }
            }
        }
    });
}

pub fn root() -> PathBuf {
    std::env::var_os("DST_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

// ---------------------------------------------------------------------------------- worker

/// runs indices start, start+stride, ... < count; talks to the parent through stdout
fn worker(prop: &str, seed: u64, start: u64, stride: u64, count: u64, secs: u64) {
    if prop == "C16" {
        zygote::start();
    }
    watchdog();
    let t0 = Instant::now();
    let mut out = std::io::stdout().lock();
    let mut stats = exec::Stats::new();
    let (mut shapes, mut edges) = (BTreeSet::new(), BTreeSet::new());
    let (mut runs, mut nontrivial, mut skipped) = (0u64, 0u64, 0u64);
    let mut i = start;
    let mut trace = 0u64;
    while i < count {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let _ = writeln!(out, "I {i}");
        let _ = out.flush();
        RUN_NO.fetch_add(1, SeqCst);
        let p = gen::generate(prop, seed, i);
        let o = exec::execute(&p, false);
        runs += 1;
        trace = trace.wrapping_add(rng::mix2(o.trace ^ o.shape, i));
        if o.skipped.is_some() {
            skipped += 1;
        }
        if o.nontrivial {
            nontrivial += 1;
            shapes.insert(o.shape);
        }
        if edges.len() < 400_000 {
            edges.extend(o.edges.iter().copied());
        }
        for (k, v) in o.stats {
            *stats.entry(k).or_insert(0) += v;
        }
        if let Some((c, d)) = o.viol {
            let _ = writeln!(out, "V {i}\t{}\t{}", c.replace(['\t', '\n'], " "), d.replace(['\t', '\n'], " "));
            let _ = out.flush();
            if std::env::var_os("DST_KEEP_GOING").is_none() {
                break;
            }
        }
        i += stride;
    }
    for (k, v) in &stats {
        let _ = writeln!(out, "S {k} {v}");
    }
    for h in &shapes {
        let _ = writeln!(out, "H {h:x}");
    }
    for h in &edges {
        let _ = writeln!(out, "E {h:x}");
    }
    for e in seams::edges::reached() {
        let _ = writeln!(out, "G {e}");
    }
    let _ = writeln!(out, "T {trace}");
    let _ = writeln!(out, "R {runs} {nontrivial} {skipped}");
    let _ = out.flush();
}

// ---------------------------------------------------------------------------------- child execution of one plan

fn fate(code: Option<i32>, signal: Option<i32>, stderr: &str) -> Option<(String, String)> {
    let last = stderr.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("").to_string();
    match (code, signal) {
        (Some(77), _) => Some(("memory".into(), "memory use is not proportional to the file: allocation limit exceeded".into())),
        (Some(78), _) => Some(("hang".into(), "a call does not return".into())),
        (_, Some(s)) => Some((format!("abort-signal-{s}"), last)),
        (Some(c), None) if c != 0 && c != 1 => Some((format!("exit-{c}"), last)),
        _ => None,
    }
}
pub struct ChildResult {
    pub viol: Option<(String, String)>,
    pub trace: String,
    pub log: String,
    pub error: Option<String>,
}
/// runs a plan in a process of its own, so that aborts and hangs are just another result
pub fn child_exec(file: &Path, verbose: bool) -> ChildResult {
    child_exec_within(file, verbose, None)
}
fn child_exec_within(file: &Path, verbose: bool, cpu_ms: Option<u64>) -> ChildResult {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    if let Some(ms) = cpu_ms {
        c.env("DST_CPU_MS", ms.to_string());
    }
    c.arg("exec").arg(file);
    if verbose {
        c.arg("-v");
    }
    let o = c.stdin(Stdio::null()).output().expect("spawn");
    let so = String::from_utf8_lossy(&o.stdout).to_string();
    let se = String::from_utf8_lossy(&o.stderr).to_string();
    let mut r = ChildResult { viol: None, trace: String::new(), log: so.clone(), error: None };
    let mut done = false;
    for l in so.lines() {
        if let Some(x) = l.strip_prefix("TRACE ") {
            r.trace = x.into();
        }
        if let Some(x) = l.strip_prefix("RESULT violation ") {
            let (c, d) = x.split_once('\t').unwrap_or((x, ""));
            r.viol = Some((c.into(), d.into()));
            done = true;
        }
        if l.starts_with("RESULT ok") {
            done = true;
        }
    }
    if !done {
        r.viol = fate(o.status.code(), o.status.signal(), &se);
        if let Some(("exit-2", d)) = r.viol.as_ref().map(|(a, b)| (a.as_str(), b)) {
            r.error = Some(d.clone());
            r.viol = None;
        } else if r.viol.is_none() {
            r.error = Some(format!("no result: {se}"));
        }
    }
    r
}
fn exec_mode(file: &str, verbose: bool) -> i32 {
    PANIC_VERBOSE.store(verbose, SeqCst);
    let p = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| Plan::parse(&t)) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("bad plan {file}: {e}");
            return 2;
        }
    };
    if p.prop == "C16" {
        zygote::start();
    }
    watchdog();
    let o = exec::execute(&p, verbose);
    for l in &o.log {
        println!("{l}");
    }
    if verbose {
        for (k, v) in &o.stats {
            println!("stat {k} {v}");
        }
    }
    println!("TRACE {:016x}", rng::mix2(o.trace, o.shape));
    match o.viol {
        Some((c, d)) => {
            println!("RESULT violation {c}\t{d}");
            1
        }
        None => {
            println!("RESULT ok");
            0
        }
    }
}

// ---------------------------------------------------------------------------------- minimisation

struct Shrink {
    dir: PathBuf,
    class: String,
    n: u32,
    until: Instant,
    detail: String,
}
impl Shrink {
    /// fails in any way; that becomes the class to look for
    fn any(&mut self, p: &Plan) -> bool {
        let f = self.dir.join("shrink.plan");
        std::fs::write(&f, p.text()).expect("write plan");
        if let Some((c, d)) = child_exec(&f, false).viol {
            (self.class, self.detail) = (c, d);
            return true;
        }
        false
    }
    fn fails(&mut self, p: &Plan) -> bool {
        if Instant::now() > self.until || self.n > 1500 {
            return false;
        }
        self.n += 1;
        let f = self.dir.join("shrink.plan");
        std::fs::write(&f, p.text()).expect("write plan");
        match child_exec_within(&f, false, Some(15_000)).viol {
            Some((c, d)) if c == self.class => {
                self.detail = d;
                true
            }
            _ => false,
        }
    }
    fn minimise(&mut self, mut p: Plan) -> Plan {
        // drop steps
        let mut size = p.steps.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < p.steps.len() && Instant::now() < self.until {
                let mut q = p.clone();
                let end = (i + size).min(q.steps.len());
                q.steps.drain(i..end);
                if !q.steps.is_empty() && self.fails(&q) {
                    p = q;
                    any = true;
                } else {
                    i += size;
                }
            }
            if size == 1 && !any || Instant::now() > self.until {
                break;
            }
            if size > 1 {
                size = size.div_ceil(2);
            }
        }
        // simplify arguments
        for _ in 0..2 {
            let mut any = false;
            for i in 0..p.steps.len() {
                if Instant::now() > self.until {
                    break;
                }
                let kv = p.steps[i].kv.clone();
                for (k, v) in kv {
                    if matches!(k, "s" | "f") {
                        continue;
                    }
                    let at = |p: &Plan| p.steps[i].kv.iter().position(|e| e.0 == k);
                    let mut q = p.clone();
                    if let Some(j) = at(&q) {
                        q.steps[i].kv.remove(j);
                        if self.fails(&q) {
                            p = q;
                            any = true;
                            continue;
                        }
                    }
                    let mut cur = v;
                    let mut tries: Vec<i64> = vec![0, 1, 2, 3];
                    if k == "sig" {
                        tries = vec![0, 4];
                    }
                    tries.retain(|x| x.unsigned_abs() < cur.unsigned_abs());
                    let mut hit = false;
                    for x in tries {
                        let mut q = p.clone();
                        if let Some(j) = at(&q) {
                            q.steps[i].kv[j].1 = x;
                            if self.fails(&q) {
                                p = q;
                                any = true;
                                hit = true;
                                break;
                            }
                        }
                    }
                    if hit || matches!(k, "sig" | "seed" | "ios" | "how" | "kind") {
                        continue;
                    }
                    let mut step = cur / 2;
                    while step != 0 {
                        let mut q = p.clone();
                        let Some(j) = at(&q) else { break };
                        q.steps[i].kv[j].1 = cur - step;
                        if self.fails(&q) {
                            p = q;
                            cur -= step;
                            any = true;
                            step = step.min(cur / 2);
                        } else {
                            step /= 2;
                        }
                    }
                }
            }
            if !any {
                break;
            }
        }
        for (i, s) in p.steps.iter_mut().enumerate() {
            let _ = i;
            let _ = s;
        }
        p
    }
}

// ---------------------------------------------------------------------------------- parent

#[derive(Default)]
pub struct Batch {
    pub runs: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub stats: exec::Stats,
    pub shapes: BTreeSet<u64>,
    pub edges: BTreeSet<u64>,
    /// control flow edges of the code reached (instrumented build only)
    pub code: BTreeSet<u64>,
    pub trace: u64,
    pub viols: Vec<(u64, String, String)>,
    pub errors: Vec<String>,
}
pub fn run_batch(prop: &str, seed: u64, count: u64, secs: u64, workers: u64) -> Batch {
    let exe = std::env::current_exe().unwrap();
    let work = root().join("work");
    std::fs::create_dir_all(&work).expect("work dir");
    let mut handles = vec![];
    let stop = std::sync::Arc::new(AtomicU64::new(u64::MAX));
    for w in 0..workers {
        let errf = work.join(format!("{prop}.{}.{w}.err", std::process::id()));
        let mut child = Command::new(&exe)
            .args(["worker", prop])
            .args([seed, w, workers, count, secs].map(|x| x.to_string()))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&errf).expect("err file"))
            .spawn()
            .expect("spawn worker");
        let so = child.stdout.take().unwrap();
        let stop = stop.clone();
        handles.push(std::thread::spawn(move || {
            let mut b = Batch::default();
            let mut cur = None;
            let mut done = false;
            let mut seen = 0u64;
            let mut killed = false;
            for l in std::io::BufReader::new(so).lines() {
                let Ok(l) = l else { break };
                let (tag, rest) = l.split_at(l.find(' ').unwrap_or(l.len()));
                let rest = rest.trim_start();
                match tag {
                    "I" => {
                        cur = rest.parse::<u64>().ok();
                        seen += 1;
                        if cur.unwrap_or(0) > stop.load(SeqCst) {
                            killed = true;
                            let _ = child.kill();
                            break;
                        }
                    }
                    "V" => {
                        let mut it = rest.split('\t');
                        let i: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let c = it.next().unwrap_or("").to_string();
                        let d = it.next().unwrap_or("").to_string();
                        b.viols.push((i, c, d));
                        if std::env::var_os("DST_KEEP_GOING").is_none() {
                            stop.fetch_min(i, SeqCst);
                        }
                    }
                    "S" => {
                        if let Some((k, v)) = rest.split_once(' ') {
                            *b.stats.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "H" => {
                        b.shapes.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                    }
                    "E" => {
                        b.edges.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                    }
                    "G" => {
                        b.code.insert(rest.parse().unwrap_or(0));
                    }
                    "T" => b.trace = rest.parse().unwrap_or(0),
                    "R" => {
                        let v: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                        if v.len() == 3 {
                            (b.runs, b.nontrivial, b.skipped) = (v[0], v[1], v[2]);
                            done = true;
                        }
                    }
                    _ => {}
                }
            }
            let st = child.wait().expect("wait");
            if !done && !killed {
                b.runs = seen;
                let se = std::fs::read_to_string(&errf).unwrap_or_default();
                match (cur, fate(st.code(), st.signal(), &se)) {
                    (Some(i), Some((c, d))) if c != "exit-2" => {
                        stop.fetch_min(i, SeqCst);
                        b.viols.push((i, c, d));
                    }
                    _ => b.errors.push(format!("worker {w} ended with {st:?} in run {cur:?}: {se}")),
                }
            } else if killed {
                b.runs = seen;
            }
            let _ = std::fs::remove_file(&errf);
            b
        }));
    }
    let mut all = Batch::default();
    for h in handles {
        let b = h.join().expect("reader thread");
        all.runs += b.runs;
        all.nontrivial += b.nontrivial;
        all.skipped += b.skipped;
        all.trace = all.trace.wrapping_add(b.trace);
        for (k, v) in b.stats {
            *all.stats.entry(k).or_insert(0) += v;
        }
        all.shapes.extend(b.shapes);
        all.edges.extend(b.edges);
        all.code.extend(b.code);
        all.viols.extend(b.viols);
        all.errors.extend(b.errors);
    }
    all.viols.sort();
    all
}

/// runs and wall-clock cap (seconds)
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 100_000,
        "C02" => 100_000,
        "C03" => 150_000,
        "C04" => 150_000,
        "C05" => 50_000,
        "C06" => 500_000,
        "C07" => 350_000,
        "C08" => 400_000,
        "C09" => 150_000,
        "C10" => 120_000,
        "C11" => 500_000,
        "C12" => 350_000,
        "C13" => 400_000,
        "C14" => 4_000,
        "C15" => 4_000,
        "C16" => 5_000,
        "C17" => 80_000,
        "C18" => 300_000,
        "C19" => 200_000,
        "C20" => 3_000,
        "C21" => 3_000,
        "C22" => 60_000,
        "C23" => 20_000,
        "C24" => 150_000,
        "C25" => 80_000,
        "C26" => 400,
        _ => 1000,
    };
    if tier == "thorough" {
        (quick * 40, 700)
    } else {
        (quick, 150)
    }
}

/// the shortest tail of the worker's executions (doubling) that fails again in one fresh process
fn history(last: &Plan, prop: &str, seed: u64, i: u64, workers: u64, sh: &mut Shrink) -> Option<Plan> {
    let mut back = 1u64;
    loop {
        let mut h = last.clone();
        h.steps.clear();
        let from = (i / workers).saturating_sub(back);
        for k in from..i / workers {
            let idx = i % workers + k * workers;
            h.steps.extend(gen::generate(prop, seed, idx).steps);
            h.steps.push(plan::Step::new(0, "next", &[("x", idx as i64)]));
        }
        h.steps.extend(last.steps.iter().cloned());
        if sh.any(&h) {
            return Some(h);
        }
        if from == 0 || Instant::now() > sh.until {
            return None;
        }
        back *= 3;
    }
}

fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let (mut count, mut secs) = budget(prop, tier);
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    count = env("DST_RUNS").unwrap_or(count);
    secs = env("DST_SECS").unwrap_or(secs);
    let workers = env("DST_WORKERS").unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16));
    println!("seed {seed} property {prop} tier {tier}: up to {count} simulated runs on {workers} workers, {secs} s");
    if let Err(e) = cli::prepare(prop) {
        eprintln!("cannot prepare: {e}");
        return 2;
    }
    let b = run_batch(prop, seed, count, secs, workers);
    let search_s = t0.elapsed().as_secs_f64();
    for e in &b.errors {
        eprintln!("harness error: {e}");
    }
    if !b.errors.is_empty() && b.viols.is_empty() {
        return 2;
    }
    let known = report::known(prop);
    let mut code = 0;
    let mut reported = 0;
    let mut classes = BTreeSet::new();
    for (i, class, detail) in &b.viols {
        if let Some(k) = known.iter().find(|k| k.class == *class) {
            if classes.insert(class.clone()) {
                println!("KNOWN-FINDING: property={prop} {}", k.what);
            }
            continue;
        }
        if !classes.insert(class.clone()) || reported >= 3 || reported > 0 && t0.elapsed().as_secs() > 150 {
            continue;
        }
        println!("run {i}: {class}: {detail}");
        let mut plan = gen::generate(prop, seed, *i);
        let dir = root().join("work").join(format!("shrink.{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("dir");
        let f = dir.join("full.plan");
        std::fs::write(&f, plan.text()).expect("write");
        let mut first = child_exec(&f, false);
        for _ in 0..4 {
            if first.viol.is_some() {
                break;
            }
            first = child_exec(&f, false);
        }
        let mut sh = Shrink { dir: dir.clone(), class: class.clone(), n: 0, until: Instant::now() + Duration::from_secs(if tier == "quick" { 60 } else { 180 }), detail: detail.clone() };
        let mut small = match &first.viol {
            Some((c, _)) => {
                sh.class = c.clone();
                sh.minimise(plan.clone())
            }
            None => {
                // what the runs before it left behind in the process matters: replay the history
                println!("run {i} passes in a process of its own; replaying what its worker did before");
                match history(&plan, prop, seed, *i, workers, &mut sh) {
                    Some(h) => {
                        first = ChildResult { viol: Some((sh.class.clone(), sh.detail.clone())), trace: String::new(), log: String::new(), error: None };
                        plan = h.clone();
                        sh.minimise(h)
                    }
                    None => {
                        eprintln!("harness error: run {i} failed with {class} in a worker, and no replay of that worker's runs reproduces it");
                        plan.clone()
                    }
                }
            }
        };
        small.notes.push(format!("{}: {}", sh.class, sh.detail));
        small.notes.push(format!("minimised from {} to {} steps in {} executions; regenerate with VERIF_SEED={seed} run {i}", plan.steps.len(), small.steps.len(), sh.n));
        let rdir = root().join("replays");
        std::fs::create_dir_all(&rdir).expect("replays");
        let name = rdir.join(format!("{prop}-{seed}-{i}.plan"));
        std::fs::write(&name, small.text()).expect("write replay");
        let again = child_exec(&name, false);
        println!("minimised to {} steps ({} executions); {}", small.steps.len(), sh.n, sh.detail);
        print!("{}", small.text());
        println!("replay of the file: {}", match &again.viol { Some((c, d)) => format!("{c}: {d}"), None => "DOES NOT REPRODUCE".into() });
        let _ = std::fs::remove_dir_all(&dir);
        if first.viol.is_none() {
            // not reproducible: an error of the harness, not a verdict
            code = if code == 1 { 1 } else { 2 };
            continue;
        }
        println!("VIOLATION property={prop} replay={}", name.display());
        code = 1;
        reported += 1;
    }
    report::evidence(prop, tier, seed, &b, count, workers, search_s, t0.elapsed().as_secs_f64(), reported);
    println!(
        "{prop}: {} runs, {} distinct non-trivial shapes, {} distinct step pairs, {:.1} s",
        b.runs,
        b.shapes.len(),
        b.edges.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            check(&a[2], &tier, seed)
        }
        Some("worker") => {
            let n: Vec<u64> = a[3..].iter().map(|x| x.parse().expect("number")).collect();
            worker(&a[2], n[0], n[1], n[2], n[3], n[4]);
            0
        }
        Some("gen") => {
            print!("{}", gen::generate(&a[2], seed, a[3].parse().expect("index")).text());
            0
        }
        Some("exec") => exec_mode(&a[2], a.iter().any(|x| x == "-v")),
        Some("replay") => {
            if let Some(p) = std::fs::read_to_string(&a[2]).ok().and_then(|t| Plan::parse(&t).ok()) {
                let _ = cli::prepare(&p.prop);
                let r = child_exec(Path::new(&a[2]), true);
                print!("{}", r.log);
                match r.viol {
                    Some((c, d)) => {
                        println!("{c}: {d}");
                        println!("VIOLATION property={} replay={}", p.prop, a[2]);
                        1
                    }
                    None if r.error.is_some() => 2,
                    None => 0,
                }
            } else {
                eprintln!("cannot read {}", a[2]);
                2
            }
        }
        Some("determinism") => {
            // the same seeds under different worker counts, in fresh processes: traces must agree
            let (props, seeds, runs) = (a[2].clone(), a[3].parse::<u64>().expect("seeds"), a[4].parse::<u64>().expect("runs"));
            let mut bad = 0;
            for prop in props.split(',') {
                let _ = cli::prepare(prop);
                for s in 0..seeds {
                    let t: Vec<u64> = [1u64, 3, 8].iter().map(|w| run_batch(prop, seed.wrapping_add(s), runs, 3600, *w).trace).collect();
                    if t.iter().any(|x| *x != t[0]) {
                        println!("NOT DETERMINISTIC: {prop} seed {} {t:x?}", seed.wrapping_add(s));
                        bad = 1;
                    }
                }
                println!("{prop}: {seeds} seeds x {runs} runs at 1, 3 and 8 workers compared");
            }
            bad
        }
        _ => {
            eprintln!("dst check PROP [quick|thorough] | replay FILE | exec FILE [-v] | gen PROP INDEX | determinism PROPS SEEDS RUNS");
            2
        }
    };
    std::process::exit(code);
}

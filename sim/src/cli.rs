//! C14, C15, C20: the real command line tool, its real rayon threads and files, run under the
//! scheduler and fault injector of clishim (LD_PRELOAD).  One plan is one batch.
use crate::exec::{foreign_wav, sample_ok, Outcome, Smp};
use crate::gen::G;
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix, mix2, Rng};
use crate::sig;
use adhoc_audio::{AdhocCodec, StreamInfo, Streamable};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn target() -> PathBuf {
    std::env::var_os("DST_TARGET").map(PathBuf::from).unwrap_or_else(|| crate::root().join("target"))
}
fn tool() -> PathBuf {
    std::env::var_os("DST_TOOL").map(PathBuf::from).unwrap_or_else(|| target().join("cli/release/adhoc_audio"))
}
fn shim() -> PathBuf {
    target().join("clishim.so")
}
/// the check script has built both; say so early if it has not
pub fn prepare(prop: &str) -> Result<(), String> {
    if matches!(prop, "C14" | "C15" | "C20") {
        for p in [tool(), shim()] {
            if !p.is_file() {
                return Err(format!("{} is missing", p.display()));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- the world

/// a scratch directory of this process, removed when the run ends
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = crate::root().join("work").join(format!("cli.{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Input {
    /// file name below in/
    name: String,
    /// file name the output gets
    out: String,
    /// None: a directory or nothing at all
    bytes: Option<Vec<u8>>,
    dir: bool,
    bad: bool,
    wav: bool,
    /// neither .wav nor .adhoc
    foreign_ext: bool,
    frames: usize,
    ch: usize,
    rate: u32,
    model: Vec<Smp>,
    /// bytes in the output directory before the tool runs
    stale: Option<Vec<u8>>,
}

/// `as`: named after another slot, so that files share a stem or its beginning
fn stem(s: &Step) -> String {
    let (s, dot) = (s.opt("as", s.get("s")), s.get("dot"));
    let st = match s.rem_euclid(24) {
        1 => format!("f{s}.take.2"),
        2 => format!("f{s} live"),
        3 => format!("f{s}-\u{e9}\u{4e16}"),
        4 => format!("f{s}.wav"),
        5 => format!("f{s}.adhoc"),
        9 => format!("f{s}..x"),
        10 => format!(".f{s}"),
        11 => format!("f{s}{}", "n".repeat(230)),
        12 => format!("F{s}.WAV"),
        13 => format!("f{s}."),
        14 => format!("f{s}.adhoc.wav"),
        15 => format!("%s{s}%n"),
        17 => format!("f{s}\\b"),
        18 => format!("-f{s} (copy)"),
        19 => format!("~f{s}'\"$*"),
        20 => format!("{s}e\u{301}\u{1f3b5}"),
        _ => format!("f{s}"),
    };
    if dot > 0 {
        format!("{st}.{dot}")
    } else {
        st
    }
}
/// the inputs of a batch and their slots.  Output names are distinct and no output is another file's input: a
/// step that would break this is left out
fn inputs(p: &Plan, outdir: &str) -> (Vec<i64>, Vec<Input>) {
    let (mut slots, mut ins): (Vec<i64>, Vec<Input>) = (vec![], vec![]);
    for s in p.steps.iter().filter(|s| matches!(s.op, "cliin" | "clibad")) {
        let i = input(s);
        let clash = |o: &Input| o.name == i.name || o.out == i.out || outdir == "in" && (o.out == i.name || o.name == i.out);
        if !slots.contains(&s.get("s")) && !ins.iter().any(clash) {
            slots.push(s.get("s"));
            ins.push(i);
        }
    }
    (slots, ins)
}
fn wav_bytes(ch: usize, rate: u32, pcm: &[i16]) -> Vec<u8> {
    let mut v = vec![];
    v.extend(b"RIFF");
    v.extend((36 + pcm.len() as u32 * 2).to_le_bytes());
    v.extend(b"WAVEfmt ");
    v.extend(16u32.to_le_bytes());
    v.extend(1u16.to_le_bytes());
    v.extend((ch as u16).to_le_bytes());
    v.extend(rate.to_le_bytes());
    v.extend(rate.wrapping_mul(ch as u32 * 2).to_le_bytes());
    v.extend((ch as u16).wrapping_mul(2).to_le_bytes());
    v.extend(16u16.to_le_bytes());
    v.extend(b"data");
    v.extend((pcm.len() as u32 * 2).to_le_bytes());
    for s in pcm {
        v.extend(s.to_le_bytes());
    }
    v
}
/// (rate, channels, samples) of a canonical 16-bit file
fn parse_wav(b: &[u8]) -> Option<(u32, usize, Vec<i16>)> {
    if b.len() < 44 || &b[0..4] != b"RIFF" || &b[8..16] != b"WAVEfmt " || &b[36..40] != b"data" {
        return None;
    }
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    if u16at(34) != 16 || u32at(40) as usize != b.len() - 44 {
        return None;
    }
    Some((u32at(24), u16at(22) as usize, b[44..].chunks_exact(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect()))
}
fn input(s: &Step) -> Input {
    let (ch, rate) = (s.opt("ch", 1).clamp(1, 65535) as usize, s.opt("rate", 8000) as u32);
    let n = s.get("n").max(0) as usize;
    let st = stem(s);
    let kind = s.get("kind");
    let mut r = Rng::new(mix(s.get("seed") as u64 ^ 0x57a1e));
    let stale = match s.get("pre") {
        0 => None,
        n => Some((0..n.min(1 << 16)).map(|_| r.u64() as u8).collect()),
    };
    let audio = |n: usize| sig::gen(s.get("sig"), s.get("seed") as u64, s.opt("amp", 1_000_000), 0, n, ch);
    let mut i = Input { name: String::new(), out: String::new(), bytes: None, dir: false, bad: false, wav: true, foreign_ext: false, frames: n, ch, rate, model: vec![], stale };
    if s.op == "cliin" {
        match kind {
            1 => {
                // somebody else's file, 8 or 16 bits, chunks before and behind the audio
                let mut f = s.clone();
                f.kv.retain(|e| !matches!(e.0, "ch" | "pre"));
                f.kv.push(("ch", ch.min(16) as i64));
                f.kv.push(("pre", s.get("x")));
                let (ch, rate, v, m) = foreign_wav(&f);
                i.ch = ch;
                i.rate = rate;
                i.bytes = Some(v);
                i.model = m;
            }
            2 => {
                let mut c = AdhocCodec::new().with_compression_level(s.opt("level", 5) as u32).with_info(StreamInfo::new(rate, ch as u32));
                let a = audio(n);
                let step = s.opt("x", 512).max(1) as usize * ch;
                for c2 in a.chunks(step) {
                    let _ = Streamable::encode(&mut c, c2);
                }
                let mut v = vec![];
                // the library is the subject of other properties; a failure here is caught by them
                let _ = c.save_to(&mut v);
                i.bytes = Some(v);
                i.wav = false;
            }
            _ => {
                let pcm: Vec<i16> = audio(n)
                    .iter()
                    .map(|x| if s.get("sig") == 4 && *x < -0.9999 { -32768 } else { (x.clamp(-1.0, 1.0) as f64 * 32767.0).round() as i16 })
                    .collect();
                i.bytes = Some(wav_bytes(ch, rate, &pcm));
                i.model = pcm.into_iter().map(Smp::Raw).collect();
            }
        }
    } else {
        i.bad = true;
        let mut ext_wav = true;
        let pcm: Vec<i16> = audio(n).iter().map(|x| (x.clamp(-1.0, 1.0) * 32767.0) as i16).collect();
        let good = wav_bytes(ch, rate, &pcm);
        let adhoc = || {
            let mut c = AdhocCodec::new().with_info(StreamInfo::new(rate, ch as u32));
            let _ = Streamable::encode(&mut c, &audio(n));
            let mut v = vec![];
            let _ = c.save_to(&mut v);
            v
        };
        match kind {
            0 => {}
            1 => i.bytes = Some((0..s.get("x").clamp(0, 4000)).map(|_| r.u64() as u8).collect()),
            2 => {
                let v = adhoc();
                let cut = v.len() * s.get("x").clamp(0, 99) as usize / 100;
                i.bytes = Some(v[..cut].to_vec());
                ext_wav = false;
            }
            3 => {
                i.bytes = Some((0..s.get("x").clamp(0, 4000)).map(|_| r.u64() as u8).collect());
                ext_wav = false;
            }
            4 => i.dir = true,
            5 => i.bytes = Some(vec![]),
            6 => {
                // 24 bits per sample
                let mut v = good.clone();
                v[34] = 24;
                i.bytes = Some(v);
            }
            7 => {
                // IEEE float
                let mut v = good.clone();
                v[20] = 3;
                i.bytes = Some(v);
            }
            8 => {
                // a damaged recording: bytes overwritten somewhere
                let mut v = adhoc();
                for _ in 0..s.get("x").clamp(1, 8) {
                    let n = v.len() as u64;
                    if n > 0 {
                        let at = if r.below(2) == 0 { r.below(n.min(160)) } else { r.below(n) };
                        v[at as usize] = r.u64() as u8;
                    }
                }
                i.bytes = Some(v);
                ext_wav = false;
            }
            _ => {
                // not for this tool
                i.bytes = Some(good.clone());
                i.foreign_ext = true;
            }
        }
        i.wav = ext_wav;
    }
    let (ie, oe) = if i.wav { ("wav", "adhoc") } else { ("adhoc", "wav") };
    i.name = if i.foreign_ext { format!("{st}.txt") } else { format!("{st}.{ie}") };
    i.out = format!("{st}.{oe}");
    i
}

// ------------------------------------------------------------------------------------- running the tool

#[derive(Debug, Default)]
struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    stderr: String,
    log: Vec<String>,
    trace: u64,
    points: u64,
}
/// `args` is a template: inputs, output directory and level as the plan spells them
fn run_tool(dir: &Path, args: &[String], cwd: &Path, threads: i64, ctrl: &str) -> Ran {
    let (cf, lf) = (dir.join("ctrl"), dir.join("log"));
    std::fs::write(&cf, ctrl).expect("ctrl");
    let _ = std::fs::remove_file(&lf);
    let o = Command::new(tool())
        .args(args)
        .current_dir(cwd)
        .env_clear()
        .env("LD_PRELOAD", shim())
        .env("SIM_CTRL", &cf)
        .env("SIM_LOG", &lf)
        .env("RAYON_NUM_THREADS", threads.to_string())
        .stdin(Stdio::null())
        .output()
        .expect("spawn tool");
    let mut r = Ran { code: o.status.code(), signal: o.status.signal(), stderr: String::from_utf8_lossy(&o.stderr).to_string(), ..Default::default() };
    let log = std::fs::read(&lf).unwrap_or_default();
    for l in String::from_utf8_lossy(&log).lines() {
        if let Some(e) = l.strip_prefix("end ") {
            let w: Vec<&str> = e.split_whitespace().collect();
            r.points = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            r.trace = w.last().and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0);
        }
        r.log.push(l.to_string());
    }
    r
}
/// an age in the past, so that no time of last change depends on the clock of the machine
fn aged(p: &Path, age: u64) {
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_500_000_000 + age);
    if let Ok(f) = std::fs::File::open(p) {
        let _ = f.set_modified(t);
    }
}
fn populate(d: &Path, ins: &[&Input], outdir: &str) {
    std::fs::create_dir_all(d.join("in")).expect("in");
    std::fs::create_dir_all(d.join(outdir)).expect("out");
    for i in ins {
        let p = d.join("in").join(&i.name);
        if i.dir {
            std::fs::create_dir_all(&p).expect("dir");
        } else if let Some(b) = &i.bytes {
            std::fs::write(&p, b).expect("input");
            aged(&p, hash_str(&i.name) % 100_000_000);
        }
        if let Some(b) = &i.stale {
            let p = d.join(outdir).join(&i.out);
            std::fs::write(&p, b).expect("stale");
            aged(&p, hash_str(&i.out) % 100_000_000);
        }
    }
}
fn listing(d: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).ok());
        }
    }
    m
}
struct Args {
    level: i64,
    threads: i64,
    alloc: i64,
    how: i64,
}
impl Args {
    /// the output directory relative to the scratch directory, and the working directory
    fn place(&self) -> (&'static str, &'static str) {
        match self.how & 3 {
            2 => ("out", "out"), // default output directory
            3 => ("in", ""),     // next to the inputs
            _ => ("out", ""),
        }
    }
    fn argv(&self, names: &[String], outdir: &str) -> Vec<String> {
        let mut opts: Vec<String> = vec![];
        let long = self.how & 4 != 0;
        if self.how & 3 != 2 {
            opts.extend([if long { "--outdir" } else { "-o" }.to_string(), outdir.to_string()]);
        }
        if self.level >= 0 {
            opts.extend([if long { "--comp-level" } else { "-c" }.to_string(), self.level.to_string()]);
        }
        let up = if self.how & 3 == 2 { "../" } else { "" };
        let ins = names.iter().map(|n| format!("{up}{n}"));
        if self.how & 8 != 0 && !names.is_empty() {
            ins.chain(opts).collect()
        } else {
            opts.into_iter().chain(["--".to_string()]).chain(ins).collect()
        }
    }
    fn effective(&self) -> u32 {
        if self.level < 0 {
            5
        } else {
            self.level.min(10) as u32
        }
    }
}
const ERRNOS: [i64; 7] = [5, 28, 13, 24, 122, 27, 12];

/// control file of the batch; hard: faults that may make a conversion fail
fn control(p: &Plan, slots: &[i64], ins: &[Input], a: &Args, outdir: &str) -> (String, bool, bool) {
    let mut c = String::new();
    let (mut hard, mut crash) = (false, false);
    c.push_str(&format!("alloc {}\n", a.alloc.clamp(0, 2)));
    let mut sw: Vec<(i64, i64)> = p.steps.iter().filter(|s| s.op == "clisched").map(|s| (s.get("n").max(1), s.get("to").max(0))).collect();
    sw.sort();
    sw.dedup_by_key(|e| e.0);
    for (n, k) in sw {
        c.push_str(&format!("switch {n} {k}\n"));
    }
    for s in p.steps.iter().filter(|s| s.op == "clifault") {
        let Some(k) = slots.iter().position(|x| *x == s.get("s")) else { continue };
        // the control file separates words with blanks
        let (i, o) = (format!("in/{}", ins[k].name.replace(' ', "?")), format!("{}/{}", outdir, ins[k].out.replace(' ', "?")));
        let e = ERRNOS[s.get("kind").rem_euclid(ERRNOS.len() as i64) as usize];
        let (n, off, times) = (s.opt("n", 1).max(1), s.get("off").max(0), s.get("once"));
        let line = match s.get("how") {
            0 => format!("fault o {i} {n} {e} {times}\n"),
            1 => format!("fault r {i} {n} {e} {times}\n"),
            2 => format!("faultat r {i} {off} {e} {times}\n"),
            3 => format!("fault s {i} {n} {e} {times}\n"),
            4 => format!("fault o {o} {n} {e} {times}\n"),
            5 => format!("fault w {o} {n} {e} {times}\n"),
            6 => format!("faultat w {o} {off} {e} {times}\n"),
            7 => format!("disk {off}\n"),
            8 => format!("fault y {o} {n} {e} {times}\n"),
            _ => {
                c.push_str(&format!("noise {} {} {}\n", s.get("seed"), s.get("short").clamp(0, 90), s.get("intr").clamp(0, 60)));
                continue;
            }
        };
        hard = true;
        c.push_str(&line);
    }
    if let Some(s) = p.steps.iter().find(|s| s.op == "clicrash") {
        crash = true;
        c.push_str(&format!("crash {} {}\n", s.get("n").max(1), s.get("keep").clamp(0, 100)));
    }
    (c, hard, crash)
}

// ------------------------------------------------------------------------------------- judging

struct V(String, String);
fn v<T>(c: &str, d: String) -> Result<T, V> {
    Err(V(c.into(), d))
}
fn frames_of(out: &[u8], adhoc: bool) -> Option<usize> {
    if adhoc {
        let mut c = AdhocCodec::load(out)?;
        let ch = c.info().channels();
        let mut b = vec![0f32; 4096.max(ch)];
        let mut n = 0;
        while let Some(k) = Streamable::decode(&mut c, &mut b) {
            n += k;
        }
        Some(n / ch)
    } else {
        let (_, ch, s) = parse_wav(out)?;
        Some(s.len() / ch.max(1))
    }
}
fn ended(r: &Ran) -> Result<(), V> {
    match (r.code, r.signal) {
        (_, Some(14)) => v("hang", "the tool does not end".into()),
        (_, Some(s)) => v(&format!("abort-signal-{s}"), format!("the tool died: {}", r.stderr.lines().last().unwrap_or(""))),
        (Some(79), _) => v("deadlock", "every thread of the tool waits for another".into()),
        _ => Ok(()),
    }
}
fn describe(b: Option<&Vec<u8>>) -> String {
    b.map(|b| format!("{} bytes", b.len())).unwrap_or_else(|| "nothing".into())
}

pub fn run(p: &Plan, verbose: bool) -> Outcome {
    let mut out = Outcome::default();
    if let Err(V(c, d)) = run_inner(p, verbose, &mut out) {
        out.viol = Some((c, d));
    }
    out
}
fn run_inner(p: &Plan, verbose: bool, out: &mut Outcome) -> Result<(), V> {
    let prop = p.prop.as_str();
    let sc = Scratch::new();
    let a = p
        .steps
        .iter()
        .find(|s| s.op == "cliarg")
        .map(|s| Args { level: s.opt("level", -1), threads: s.opt("t", 1).clamp(1, 16), alloc: s.get("a"), how: s.get("how") })
        .unwrap_or(Args { level: -1, threads: 1, alloc: 0, how: 0 });
    let (outdir, cwd) = a.place();
    let (slots, ins) = inputs(p, outdir);
    let inames: Vec<String> = ins.iter().map(|i| format!("in/{}", i.name)).collect();
    let stat = |o: &mut Outcome, k: &str, n: u64| *o.stats.entry(k.to_string()).or_insert(0) += n;
    stat(out, "op_inputs", ins.len() as u64);
    let us: u64 = ins.iter().filter(|i| !i.bad && i.rate > 0).map(|i| i.frames as u64 * 1_000_000 / i.rate as u64).sum();
    stat(out, "sim_audio_us", us);

    // what converting each file alone produces
    let mut solo: Vec<(Option<Vec<u8>>, Option<i32>)> = vec![];
    for (k, i) in ins.iter().enumerate() {
        if ins.len() > 40 && i.bad && i.bytes.is_none() && !i.dir && !i.foreign_ext {
            // a file that is not there, one of hundreds
            solo.push((i.stale.clone(), Some(1)));
            continue;
        }
        let d = sc.0.join("solo");
        let _ = std::fs::remove_dir_all(&d);
        populate(&d, &[i], outdir);
        let r = run_tool(&sc.0, &a.argv(&inames[k..k + 1], outdir), &d.join(cwd), 1, "");
        stat(out, "op_solo", 1);
        ended(&r)?;
        let b = listing(&d.join(outdir)).remove(&i.out).flatten();
        out.trace = mix2(out.trace, r.trace);
        if !i.bad {
            if r.code != Some(0) {
                return v("solo-failed", format!("{} alone: exit status {:?}, {}", i.name, r.code, r.stderr.lines().next().unwrap_or("")));
            }
            let n = b.as_ref().and_then(|b| frames_of(b, i.wav));
            if n != Some(i.frames) {
                return v("solo-incomplete", format!("{} alone: exit status 0, {:?} of {} frames in {}", i.name, n, i.frames, i.out));
            }
        }
        solo.push((b, r.code));
    }

    // the batch
    let d = sc.0.join("batch");
    populate(&d, &ins.iter().collect::<Vec<_>>(), outdir);
    let before = listing(&d.join("in"));
    let (ctrl, hard, crash) = control(p, &slots, &ins, &a, outdir);
    let r = run_tool(&sc.0, &a.argv(&inames, outdir), &d.join(cwd), a.threads, &ctrl);
    stat(out, "op_batch", 1);
    out.trace = mix2(out.trace, r.trace ^ r.code.unwrap_or(-1) as u64);
    if verbose {
        out.log.push(format!("args {:?} threads {}\ncontrol:\n{ctrl}exit {:?} signal {:?}\n{}", a.argv(&inames, outdir), a.threads, r.code, r.signal, r.stderr));
        out.log.extend(r.log.iter().cloned());
    }
    let mut fired: BTreeSet<String> = BTreeSet::new();
    let mut finished: BTreeMap<String, bool> = BTreeMap::new();
    let mut crashed = false;
    let mut prev = String::new();
    for l in &r.log {
        let w: Vec<&str> = l.split_whitespace().collect();
        // names may contain blanks, the operation comes first and the last word is a number
        let name = |from: usize, to: usize| w[from..w.len().saturating_sub(to).max(from)].join(" ");
        match w.first().copied() {
            Some("fault") => {
                fired.insert(name(2, 1));
                stat(out, &format!("fault_{}_errno_{}", w.get(1).unwrap_or(&""), w.last().unwrap_or(&"")), 1);
            }
            Some("intr") => stat(out, &format!("fault_intr_{}", w.get(1).unwrap_or(&"")), 1),
            Some("short") => stat(out, &format!("fault_short_{}", w.get(1).unwrap_or(&"")), 1),
            Some("crash") => {
                crashed = true;
                stat(out, &format!("fault_crash_at_{}", w.get(1).unwrap_or(&"")), 1);
            }
            Some("open") if w.last() == Some(&"1") => {
                finished.remove(&name(1, 1));
            }
            Some("close") => {
                finished.insert(name(1, 1), w.last() == Some(&"1"));
            }
            Some("end") => {
                stat(out, "sched_points", r.points);
                let get = |k: &str| w.iter().position(|x| *x == k).and_then(|i| w.get(i + 1)).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                stat(out, "sched_switches", get("switches"));
                stat(out, "sched_tasks", get("tasks"));
                if get("switches") > 0 {
                    stat(out, "fault_preempted_batches", 1);
                    out.nontrivial = true;
                }
            }
            _ => {}
        }
        let e = format!("{}>{}{}", prev, w.first().unwrap_or(&""), w.get(1).filter(|x| x.len() == 1).unwrap_or(&""));
        out.edges.push(hash_str(&e));
        prev = e.rsplit('>').next().unwrap_or("").into();
    }
    out.nontrivial |= !fired.is_empty() || crashed || ins.iter().any(|i| i.bad);
    out.shape = mix2(out.shape, r.trace);
    for s in &p.steps {
        if s.op != "clisched" {
            out.shape = mix2(out.shape, hash_str(s.op) ^ s.get("kind") as u64 ^ ((s.get("how") as u64) << 8));
        }
    }
    ended(&r)?;
    // a fault in a file of the tool's own (a temporary one) may concern any output
    if fired.iter().any(|f| !ins.iter().any(|i| *f == format!("in/{}", i.name) || *f == format!("{outdir}/{}", i.out))) {
        stat(out, "fault_in_other_file", 1);
        fired.extend(ins.iter().map(|i| format!("{outdir}/{}", i.out)));
    }
    let bad = ins.iter().any(|i| i.bad && !i.foreign_ext);
    let odd = ins.iter().any(|i| i.foreign_ext);
    let have = listing(&d.join(outdir));

    // inputs are untouched
    let mut after = listing(&d.join("in"));
    if outdir == "in" {
        for i in &ins {
            if !before.contains_key(&i.out) || i.stale.is_some() {
                after.remove(&i.out);
            }
        }
    }
    for (n, b) in &before {
        if outdir == "in" && ins.iter().any(|i| i.stale.is_some() && i.out == *n) {
            continue;
        }
        if after.get(n) != Some(b) {
            return v("input-changed", format!("{n} has been modified"));
        }
    }
    // a process that dies may leave temporary files next to its outputs
    if let Some(n) = after.keys().find(|n| !before.contains_key(*n) && !(crashed && outdir == "in")) {
        return v("stray-file", format!("in/{n} has appeared"));
    }
    let allowed: BTreeSet<&str> = ins.iter().filter(|i| !i.foreign_ext).map(|i| i.out.as_str()).chain(ins.iter().map(|i| i.name.as_str()).filter(|_| outdir == "in")).chain(ins.iter().filter(|i| i.stale.is_some()).map(|i| i.out.as_str())).collect();

    match prop {
        "C14" => {
            if let Some(n) = have.keys().find(|n| !allowed.contains(n.as_str())) {
                return v("stray-file", format!("{outdir}/{n} has appeared"));
            }
            for (i, (s, _)) in ins.iter().zip(&solo) {
                let h = have.get(&i.out).cloned().flatten();
                if h != *s {
                    return v(
                        if i.bad { "bad-input-differs" } else { "output-differs" },
                        format!("{}: {} alone, {} in the batch; exit status {:?} {}", i.out, describe(s.as_ref()), describe(h.as_ref()), r.code, r.stderr.lines().next().unwrap_or("")),
                    );
                }
            }
        }
        "C15" => {
            judge_faults(&ins, &solo, &have, &r, hard, crash, crashed, bad, odd, &finished, &fired, outdir)?;
            if crashed || hard {
                // the faults are gone: running the tool again completes everything
                let r2 = run_tool(&sc.0, &a.argv(&inames, outdir), &d.join(cwd), a.threads, "");
                stat(out, "op_retry", 1);
                ended(&r2)?;
                out.trace = mix2(out.trace, r2.trace);
                let have2 = listing(&d.join(outdir));
                judge_faults(&ins, &solo, &have2, &r2, false, false, false, bad, odd, &BTreeMap::new(), &BTreeSet::new(), outdir)
                    .map_err(|V(c, d)| V(format!("retry-{c}"), format!("after the fault, run again without: {d}")))?;
            }
        }
        _ => {
            // C20
            if r.code != Some(0) {
                return v("failed", format!("compressing: exit status {:?} {}", r.code, r.stderr));
            }
            let names: Vec<String> = ins.iter().map(|i| format!("{outdir}/{}", i.out)).collect();
            std::fs::create_dir_all(d.join("out2")).expect("out2");
            let b = Args { level: -1, threads: a.threads, alloc: a.alloc, how: a.how & 4 };
            let r2 = run_tool(&sc.0, &b.argv(&names, "out2"), &d, a.threads, &ctrl);
            out.trace = mix2(out.trace, r2.trace);
            out.shape = mix2(out.shape, r2.trace);
            ended(&r2)?;
            if r2.code != Some(0) {
                return v("failed", format!("decompressing: exit status {:?} {}", r2.code, r2.stderr));
            }
            let have2 = listing(&d.join("out2"));
            let level = a.effective();
            for i in &ins {
                // the first field of the format is the level
                match have.get(&i.out).and_then(|b| b.as_ref()).and_then(|b| b.get(..4)) {
                    Some(f) if f == level.to_le_bytes() => {}
                    f => return v("level", format!("{}: asked for level {}, which means {level}, but the level field is {f:?}", i.out, a.level)),
                }
                let Some((rate, ch, y)) = have2.get(&i.name).and_then(|b| b.as_ref()).and_then(|b| parse_wav(b)) else {
                    return v("no-output", format!("{} is not a WAV file", i.name));
                };
                if rate != i.rate || ch != i.ch || y.len() != i.model.len() {
                    return v("format", format!("{}: {} Hz {} channels {} samples became {rate} Hz {ch} channels {}", i.name, i.rate, i.ch, i.model.len(), y.len()));
                }
                for (k, (m, y)) in i.model.iter().zip(&y).enumerate() {
                    let tol = (1i64 << level) as f64 * 1.0005 + if level > 0 { 32.767 } else { 0.0 } + 1.0;
                    let (x, ok) = match m {
                        Smp::Raw(x) if level == 0 => (*x as f64, (*x).max(-32767) == *y),
                        Smp::Raw(x) => (*x as f64, (*x as f64 - *y as f64).abs() <= tol),
                        Smp::Raw8(b) => {
                            let x = (*b as f64 / 255.0 * 2.0 - 1.0) * 32767.0;
                            (x, (x - *y as f64).abs() <= tol + 300.0)
                        }
                        Smp::In(x) => (*x as f64, sample_ok(*x, *y as f32 / 32767.0, level)),
                    };
                    if !ok {
                        return v("error-bound", format!("{} frame {} channel {}: {x} became {y} at level {level}", i.name, k / ch, k % ch));
                    }
                }
            }
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn judge_faults(
    ins: &[Input],
    solo: &[(Option<Vec<u8>>, Option<i32>)],
    have: &BTreeMap<String, Option<Vec<u8>>>,
    r: &Ran,
    hard: bool,
    crash: bool,
    crashed: bool,
    bad: bool,
    odd: bool,
    finished: &BTreeMap<String, bool>,
    fired: &BTreeSet<String>,
    outdir: &str,
) -> Result<(), V> {
    let _ = crash;
    for (i, (s, solo_code)) in ins.iter().zip(solo) {
        if i.foreign_ext {
            continue;
        }
        let h = have.get(&i.out).cloned().flatten();
        let complete = s.is_some() && h == *s;
        // a damaged .adhoc may still load; then the file alone decides
        let convertible = !i.bad || *solo_code == Some(0);
        if r.code == Some(0) && !(convertible && complete) {
            return v("status-0", format!("exit status 0, but {} has {} instead of {}", i.out, describe(h.as_ref()), describe(s.as_ref())));
        }
        let touched = fired.contains(&format!("in/{}", i.name)) || fired.contains(&format!("{outdir}/{}", i.out));
        if convertible && !complete {
            if !crashed && !touched {
                return v("undamaged-input", format!("{} met no fault, but has {} instead of {}; exit status {:?} {}", i.out, describe(h.as_ref()), describe(s.as_ref()), r.code, r.stderr.lines().next().unwrap_or("")));
            }
            if finished.get(&format!("{outdir}/{}", i.out)) == Some(&false) && !touched {
                return v("finished-output", format!("{} was closed before the crash, but has {} instead of {}", i.out, describe(h.as_ref()), describe(s.as_ref())));
            }
            let untouched_stale = h.is_some() && h == i.stale;
            if let (Some(h), false) = (&h, untouched_stale) {
                if i.wav {
                    if AdhocCodec::load(&h[..]).is_some() {
                        return v("wrong-adhoc", format!("{} loads, but has {} bytes instead of {}", i.out, h.len(), describe(s.as_ref())));
                    }
                } else if !s.as_ref().map(|s| s.starts_with(h)).unwrap_or(false) {
                    return v("wrong-wav", format!("{} ({} bytes) is not a prefix of the complete file ({})", i.out, h.len(), describe(s.as_ref())));
                }
            }
        }
    }
    let may_fail = !fired.is_empty() || bad || odd || crashed;
    let _ = hard;
    if !may_fail && r.code != Some(0) {
        return v("status", format!("no fault, but exit status {:?} {}", r.code, r.stderr.lines().next().unwrap_or("")));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- generating

pub fn generate(g: &mut G, prop: &str) {
    let c20 = prop == "C20";
    let level = match g.r.below(12) {
        0..=1 => -1,
        2..=4 => 0,
        5 => g.r.pick(&[10, 11, 99, 4294967295]),
        _ => g.r.range(0, 10),
    };
    let threads = g.r.pick(&[1, 2, 2, 3, 3, 4, 4, 6, 8]);
    let alloc = g.r.pick(&[0, 0, 1, 1, 1, 2, 2]);
    let how = if g.r.chance(0.6) { g.r.range(0, 1) * 8 } else { g.r.range(0, 15) };
    g.emit("cliarg", &[("level", level), ("t", threads), ("a", alloc), ("how", how)]);
    // now and then a batch of hundreds of tiny files
    let crowd = g.r.chance(0.012);
    let files = match g.r.below(10) {
        _ if crowd => g.r.pick(&[33, 65, 129, 255, 256, 257, 300, 340]) + g.r.range(0, 2),
        0 => 1,
        1..=5 => g.r.range(2, 4),
        _ => g.r.range(3, 8),
    };
    // of these, a round number that cannot be converted
    let missing = if crowd && !c20 && g.r.chance(0.6) { g.r.pick(&[64, 128, 255, 256, 256, 256, 257, 512]) } else { 0 };
    let files = if missing > 0 { missing + g.r.range(0, 5) } else { files };
    let big = if c20 { 6000 } else { 1500 };
    let mut slots = vec![];
    let twins = g.r.chance(0.3) && missing == 0;
    let base = g.r.range(0, 23);
    let mut bytes = 0i64;
    for k in 0..files {
        let s = base + k;
        let ch = match g.r.below(20) {
            0..=11 => g.r.range(1, 2),
            12..=17 => g.r.range(1, 8),
            18 => g.r.range(1, 40),
            _ => g.r.pick(&[1023, 1024, 1025, 1500, 300, 2048, 2049, 4097, 9000, 32768, 65535]),
        };
        let rate = g.r.pick(&[8000, 11025, 44100, 48000, 96000, 1, 192000]);
        let n = match g.r.below(12) {
            0 => g.r.range(0, 4),
            1 => (1024 * g.r.range(1, 3) + g.r.range(-2, 2)) / ch,
            2 => 1024 / ch * g.r.range(1, 4),
            3..=6 => g.r.log(1, 300),
            _ => g.r.log(1, big),
        };
        let (ch, n) = if crowd { (ch.min(2), n % 4) } else { (ch, n) };
        let n = if ch > 3000 { n.min(3) } else if ch > 40 { n.min(6) } else { n.min(16000 / ch) };
        let seed = (g.r.u64() >> 34) as i64;
        let sg = g.r.pick(&[2, 3, 4, 4, 5, 6, 7, 9, 10, 11, 12, 17, 18]);
        let amp = g.r.pick(&[1_000_000, 1_000_000, 300_000, 10_000]);
        let pre = if !c20 && g.r.chance(0.15) { g.r.log(1, 9000) } else { 0 };
        bytes += n * ch * 2;
        // x.wav and x.adhoc, x.wav and x.1.wav, x.1.wav and x.2.wav
        let (name, dot) = if twins && !slots.is_empty() && g.r.chance(0.6) { (g.r.pick(&slots), g.r.range(0, 2)) } else { (s, if twins { g.r.range(0, 2) } else { 0 }) };
        if missing > 0 {
            // spread over the batch, most of them simply not there
            if k * missing / files != (k + 1) * missing / files {
                let kind = if g.r.chance(0.05) { g.r.pick(&[1, 4, 5]) } else { 0 };
                g.emit("clibad", &[("s", s), ("kind", kind), ("x", 9), ("ch", 1), ("rate", rate), ("n", 0), ("seed", seed)]);
                slots.push(s);
                continue;
            }
        } else if !c20 && g.r.chance(if crowd { 0.02 } else { 0.18 }) {
            let kind = g.r.range(0, 9);
            let x = if kind == 2 { g.r.range(0, 99) } else { g.r.log(1, 600) };
            g.emit("clibad", &[("s", s), ("kind", kind), ("x", x), ("ch", ch.min(8)), ("rate", rate), ("n", n), ("sig", sg), ("seed", seed), ("pre", pre), ("as", name), ("dot", dot)]);
            slots.push(s);
            continue;
        }
        let kind = if c20 { g.r.pick(&[0, 0, 0, 1]) } else { g.r.pick(&[0, 0, 0, 1, 2, 2, 2]) };
        match kind {
            1 => {
                let (bits, x, post, how) = (g.r.pick(&[8, 16]), g.r.range(0, 60), g.r.range(0, 50), g.foreign_how());
                g.emit("cliin", &[("s", s), ("kind", 1), ("ch", ch.min(16)), ("rate", rate), ("n", n), ("seed", seed), ("bits", bits), ("x", x), ("post", post), ("how", how), ("pre", pre), ("as", name), ("dot", dot)]);
            }
            2 => {
                let (lv, x) = (g.r.range(0, 10), g.r.log(1, 2000));
                g.emit("cliin", &[("s", s), ("kind", 2), ("ch", ch), ("rate", rate), ("n", n), ("sig", sg), ("amp", amp), ("seed", seed), ("level", lv), ("x", x), ("pre", pre), ("as", name), ("dot", dot)]);
            }
            _ => g.emit("cliin", &[("s", s), ("kind", 0), ("ch", ch), ("rate", rate), ("n", n), ("sig", sg), ("amp", amp), ("seed", seed), ("pre", pre), ("as", name), ("dot", dot)]),
        }
        slots.push(s);
    }
    // where threads are preempted: distances between the switches
    if threads > 1 {
        let (lo, hi) = if alloc == 2 {
            g.r.pick(&[(1, 40), (1, 1000), (1, 20_000), (1, 200_000)])
        } else {
            g.r.pick(&[(1, 3), (1, 12), (1, 40), (1, 200), (5, 600)])
        };
        let count = match g.r.below(6) {
            0 => 0,
            1 => g.r.range(1, 4),
            2..=3 => g.r.range(5, 40),
            _ => g.r.range(40, 200),
        };
        let mut n = if g.r.chance(0.3) { g.r.log(1, if alloc == 2 { 200_000 } else { 600 }) } else { 0 };
        for _ in 0..count {
            n += g.r.log(lo, hi);
            let to = g.r.range(0, 7);
            g.t += 1;
            g.emit("clisched", &[("n", n), ("to", to)]);
        }
    }
    if prop == "C15" {
        let mode = g.r.below(10);
        if mode < 7 {
            for _ in 0..g.r.pick(&[1, 1, 1, 2, 3]) {
                let s = g.r.pick(&slots);
                let kind = g.r.range(0, 6);
                let once = g.r.pick(&[0, 1, 1]);
                match g.r.below(10) {
                    0 => {
                        let kind = g.r.pick(&[2, 3, 0]);
                        g.emit("clifault", &[("s", s), ("how", 0), ("kind", kind), ("once", once)])
                    }
                    1 => {
                        let n = g.r.range(1, 8);
                        g.emit("clifault", &[("s", s), ("how", 1), ("n", n), ("kind", kind), ("once", once)])
                    }
                    2 => {
                        let off = if g.r.chance(0.4) { g.r.range(0, 300) } else { g.r.log(1, 9000) };
                        g.emit("clifault", &[("s", s), ("how", 2), ("off", off), ("kind", kind), ("once", once)])
                    }
                    3 => {
                        let n = g.r.range(1, 2);
                        g.emit("clifault", &[("s", s), ("how", 3), ("n", n), ("kind", 0), ("once", once)])
                    }
                    4 => {
                        let kind = g.r.pick(&[1, 2, 3]);
                        g.emit("clifault", &[("s", s), ("how", 4), ("kind", kind), ("once", once)])
                    }
                    5 => {
                        let n = g.r.log(1, 900);
                        g.emit("clifault", &[("s", s), ("how", 5), ("n", n), ("kind", kind), ("once", once)])
                    }
                    6..=7 => {
                        let off = if g.r.chance(0.3) { g.r.range(0, 60) } else { g.r.log(1, 9000) };
                        g.emit("clifault", &[("s", s), ("how", 6), ("off", off), ("kind", kind), ("once", once)])
                    }
                    8 => {
                        let off = if g.r.chance(0.2) { 0 } else { g.r.log(1, (bytes * 2).max(2)) };
                        g.emit("clifault", &[("s", s), ("how", 7), ("off", off)])
                    }
                    _ => {
                        let n = g.r.range(1, 2);
                        g.emit("clifault", &[("s", s), ("how", 8), ("n", n), ("kind", kind), ("once", once)])
                    }
                }
            }
        }
        if g.r.chance(0.4) {
            let (seed, short, intr) = ((g.r.u64() >> 34) as i64, g.r.pick(&[0, 10, 50, 90]), g.r.pick(&[0, 5, 20, 50]));
            let s = slots[0];
            g.emit("clifault", &[("s", s), ("how", 9), ("seed", seed), ("short", short), ("intr", intr)]);
        }
        if mode >= 7 || g.r.chance(0.1) {
            let (n, keep) = (g.r.log(1, 60 + bytes / 12), g.r.pick(&[0, 1, 50, 99, 100]));
            g.emit("clicrash", &[("n", n), ("keep", keep)]);
        }
    }
}

//! Executes a plan against the real code and judges it with the oracles of one property.
use crate::io::{Io, Sink, Source};
use crate::plan::{Plan, Step};
use crate::rng::{mix, mix2, Rng};
use crate::sig;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::rc::Rc;

pub type Stats = BTreeMap<String, u64>;

#[derive(Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
type R<T = ()> = Result<T, Viol>;

#[derive(Default)]
pub struct Outcome {
    pub viol: Option<(String, String)>,
    pub stats: Stats,
    /// hash of the abstract shape of the run (operation kinds, bucketed sizes, faults fired)
    pub shape: u64,
    /// adjacent abstract step pairs
    pub edges: Vec<u64>,
    /// hash of everything observed: equal for equal executions
    pub trace: u64,
    /// a fault fired or the schedule was irregular
    pub nontrivial: bool,
    pub skipped: Option<String>,
    pub log: Vec<String>,
}

pub const STEP: f64 = 1.0 / 32767.0;

// ---------------------------------------------------------------------------------------------
// thin wrappers over the public API

/// what the microphone delivers in one call: the samples, and how many of them are in whole frames
fn mic(s: &Step, start: usize, ch: usize) -> (Vec<f32>, usize) {
    let n = s.get("n").max(0) as usize;
    let mut v = sig::gen(s.get("sig"), s.get("seed") as u64, s.opt("amp", 1_000_000), start, n, ch);
    let extra = (s.get("x").max(0) as usize) % ch;
    v.extend((0..extra).map(|i| 0.25 + i as f32 * 0.001));
    let whole = v.len() - extra;
    (v, whole)
}
fn a_enc(c: &mut AdhocCodec, s: &[f32]) -> Option<usize> {
    <AdhocCodec as Streamable>::encode(c, s)
}
fn a_dec(c: &mut AdhocCodec, b: &mut [f32]) -> Option<usize> {
    <AdhocCodec as Streamable>::decode(c, b)
}
fn a_bound(c: &AdhocCodec) -> u64 {
    <AdhocCodec as Streamable>::filesize_upperbound(c)
}
fn a_info(c: &AdhocCodec) -> (usize, usize) {
    let i = <AdhocCodec as Streamable>::info(c);
    (i.frequency(), i.channels())
}
fn w_info(c: &WavCodec) -> (usize, usize) {
    let i = <WavCodec as Streamable>::info(c);
    (i.frequency(), i.channels())
}
fn a_bytes(c: &AdhocCodec) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    c.save_to(&mut v)?;
    Some(v)
}
fn w_bytes(c: &WavCodec) -> Result<Vec<u8>, &'static str> {
    let mut v = Vec::new();
    c.save_to(&mut v)?;
    Ok(v)
}

// ---------------------------------------------------------------------------------------------
// worker threads for C16: the caller decides on which thread a call runs, one call at a time

type Job = Box<dyn FnOnce() + Send>;
struct Pool {
    tx: Vec<std::sync::mpsc::Sender<Job>>,
}
struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(self) -> T {
        self.0
    }
}
impl Pool {
    fn new(n: usize) -> Pool {
        let mut tx = vec![];
        for _ in 0..n {
            let (s, r) = std::sync::mpsc::channel::<Job>();
            std::thread::spawn(move || {
                for j in r {
                    j();
                }
            });
            tx.push(s);
        }
        Pool { tx }
    }
    fn run<T>(&self, t: usize, f: impl FnOnce() -> T) -> T {
        if t == 0 || self.tx.is_empty() {
            return f();
        }
        let (s, r) = std::sync::mpsc::channel();
        let pack = SendPtr((f, s));
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let (f, s) = pack.get();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let _ = s.send(r);
        });
        // the caller blocks until the job has finished, so the borrowed data outlives it
        let job: Job = unsafe { std::mem::transmute(job) };
        self.tx[(t - 1) % self.tx.len()].send(job).expect("worker");
        match r.recv().expect("worker result") {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// models

#[derive(PartialEq, Clone, Copy)]
enum Mode {
    Rec,
    Play,
}
struct A {
    codec: Box<AdhocCodec>,
    ch: usize,
    rate: u32,
    level: u32,
    input: Vec<f32>,
    mode: Mode,
    /// rewound and not read since: a new recording may start
    fresh: bool,
    /// admissible playback positions (frames)
    cands: Vec<usize>,
    canon: Option<Rc<Vec<f32>>>,
    damaged: bool,
    /// frames per channel that a well-formed file without a model declares
    declared: Option<u64>,
    /// bytes of the damaged file it came from
    from_len: usize,
    recordings: u32,
    /// every call that was made so far, saves and other looks aside
    history: u64,
    chunks: Vec<(Step, usize)>,
}
struct W {
    codec: Box<WavCodec>,
    ch: usize,
    rate: u32,
    model: Vec<Smp>,
    cands: Vec<usize>,
    damaged: bool,
}
/// expectation for one stored WAV sample
#[derive(Clone, Copy, Debug)]
pub enum Smp {
    In(f32),
    /// 16-bit value found in a file
    Raw(i16),
    /// 8-bit value found in a file
    Raw8(u8),
}
#[derive(Clone)]
struct FileS {
    bytes: Vec<u8>,
    wav: bool,
    ch: usize,
    rate: u32,
    level: u32,
    input: Vec<f32>,
    model: Vec<Smp>,
    /// bytes of the complete file
    full: Vec<u8>,
    complete: bool,
    damaged: bool,
    /// C18: acknowledged
    acked: bool,
    order: u64,
    declared: Option<u64>,
}

pub fn grid_value(x: f32) -> Option<i32> {
    if !x.is_finite() || x.abs() > 1.0 {
        return None;
    }
    let y = x as f64 * 32767.0;
    let k = y.round();
    ((y - k).abs() < 0.003).then_some(k as i32)
}

/// the error bound of C02 for one sample
pub fn sample_ok(x: f32, y: f32, level: u32) -> bool {
    if !y.is_finite() {
        return false;
    }
    let s = (1u32 << level) as f64;
    let tol = s * STEP * 1.0005 + if level > 0 { 0.001 } else { 0.0 } + 2e-6;
    let (xd, yd) = (x as f64, y as f64);
    if x.is_nan() {
        return yd.abs() <= s + tol;
    }
    if xd.abs() <= 1.0 {
        if level == 0 {
            if let Some(k) = grid_value(x) {
                return (yd * 32767.0 - k as f64).abs() < 0.01;
            }
        }
        return (xd - yd).abs() <= tol;
    }
    // out of range: clipped somewhere between full scale and its own value
    let hi = xd.abs().min(s);
    yd * xd.signum() >= 1.0 - tol && yd * xd.signum() <= hi + tol
}

/// compares decoded with recorded audio
fn check_audio(out: &[f32], input: &[f32], ch: usize, level: u32, fine: bool) -> Option<(String, String)> {
    if out.len() != input.len() {
        return Some((
            "length".into(),
            format!("{} samples decoded, {} recorded ({} channels)", out.len(), input.len(), ch),
        ));
    }
    for (i, (&y, &x)) in out.iter().zip(input).enumerate() {
        let ok = if fine {
            sample_ok(x, y, level)
        } else {
            !(x.abs() <= 1.0) || (x as f64 - y as f64).abs() <= 0.01 + 4.0 * (1u32 << level) as f64 * STEP
        };
        if !ok {
            return Some((
                if fine { "error-bound".into() } else { "order".into() },
                format!("frame {} channel {}: recorded {x:?}, decoded {y:?} at level {level}", i / ch, i % ch),
            ));
        }
    }
    None
}
fn smp_ok(e: Smp, y: f32) -> bool {
    if !y.is_finite() {
        return false;
    }
    let yd = y as f64;
    match e {
        Smp::In(x) => {
            if x.is_nan() {
                return yd.abs() <= 1.0001;
            }
            if let Some(k) = grid_value(x) {
                return (yd * 32767.0 - k as f64).abs() < 0.01;
            }
            (x.clamp(-1.0, 1.0) as f64 - yd).abs() <= STEP * 1.0005 + 2e-6
        }
        // -32768 is reported as (about) -1
        Smp::Raw(k) => (yd * 32767.0 - k as f64).abs() < 0.01 || (k == -32768 && (yd + 1.0).abs() < 0.0001),
        Smp::Raw8(b) => (yd - (b as f64 / 255.0 * 2.0 - 1.0)).abs() <= 0.009,
    }
}

// ---------------------------------------------------------------------------------------------

/// the bytes of a WAV file another program might have written: channels, rate, file, samples
/// (how: 1 fmt chunk with an extension, 2 the word data inside a text chunk, 4 chunks in front of fmt,
/// 8 a longer extension, 16 another size in the RIFF header, 32 several chunks, 64 the word fmt inside a text chunk)
pub fn foreign_wav(s: &Step) -> (usize, u32, Vec<u8>, Vec<Smp>) {
    let ch = s.opt("ch", 1).clamp(1, 65535) as usize;
    let rate = s.opt("rate", 44100) as u32;
    let bits = if s.get("bits") == 8 { 8 } else { 16 };
    let n = s.get("n").max(0) as usize;
    let how = s.get("how");
    let mut r = Rng::new(mix(s.get("seed") as u64));
    let chunk = |v: &mut Vec<u8>, len: usize, tag: &[u8; 4], r: &mut Rng, word: Option<&[u8; 4]>| {
        v.extend(tag);
        v.extend((len as u32).to_le_bytes());
        let at = v.len();
        for _ in 0..len {
            // keep random text from spelling the words
            v.push(match b' ' + (r.below(90)) as u8 {
                b'd' => b'D',
                b'f' => b'F',
                b => b,
            });
        }
        if let Some(w) = word.filter(|_| len >= 4) {
            let p = at + r.below((len - 3) as u64) as usize;
            v[p..p + 4].copy_from_slice(w);
        }
        if len % 2 == 1 {
            v.push(0);
        }
    };
    let mut v: Vec<u8> = vec![];
    v.extend(b"RIFF\0\0\0\0WAVE");
    let fmtlen = match how & 9 {
        1 => 18,
        8 => 40,
        9 => 18 + 2 * r.below(20) as usize,
        _ => 16,
    };
    // the header of the data chunk lies within the first 256 bytes
    let mut room = 256 - 12 - (8 + fmtlen) - 8;
    let mut texts = vec![];
    let pre = s.get("pre").max(0) as usize;
    let mut left = pre;
    while left > 0 && room >= 8 {
        let len = if how & 32 != 0 { r.below(left.min(60) as u64 + 1) as usize } else { left }.min(room - 8);
        // the pad byte has to fit too
        let len = if len % 2 == 1 && len + 9 > room { len - 1 } else { len };
        texts.push(len);
        room -= 8 + len + len % 2;
        left = left.saturating_sub(len.max(1));
        if how & 32 == 0 {
            break;
        }
    }
    let in_front = if how & 4 == 0 { 0 } else if how & 32 == 0 { texts.len() } else { r.below(texts.len() as u64 + 1) as usize };
    let word = |r: &mut Rng| match how & 66 {
        2 => Some(b"data"),
        64 => Some(b"fmt "),
        66 => Some(r.pick(&[b"data", b"fmt "])),
        _ => None,
    };
    const TAGS: [&[u8; 4]; 5] = [b"LIST", b"JUNK", b"bext", b"fact", b"PEAK"];
    for (i, len) in texts.iter().enumerate().chain([(texts.len(), &0)]) {
        if i == in_front {
            v.extend(b"fmt ");
            v.extend((fmtlen as u32).to_le_bytes());
            v.extend(1u16.to_le_bytes());
            v.extend((ch as u16).to_le_bytes());
            v.extend(rate.to_le_bytes());
            let align = (ch * bits / 8) as u16;
            v.extend(rate.wrapping_mul(align as u32).to_le_bytes());
            v.extend(align.to_le_bytes());
            v.extend((bits as u16).to_le_bytes());
            if fmtlen >= 18 {
                v.extend((fmtlen as u16 - 18).to_le_bytes());
                (18..fmtlen).for_each(|_| v.push(r.u64() as u8 & 0x5b));
            }
        }
        if i < texts.len() {
            let w = word(&mut r);
            let tag = r.pick(&TAGS);
            chunk(&mut v, *len, tag, &mut r, w);
        }
    }
    v.extend(b"data");
    let bytes = n * ch * bits / 8;
    v.extend((bytes as u32).to_le_bytes());
    assert!(v.len() <= 256);
    let mut model = vec![];
    for _ in 0..n * ch {
        if bits == 8 {
            let b = r.u64() as u8;
            v.push(b);
            model.push(Smp::Raw8(b));
        } else {
            let k = if r.below(8) == 0 { r.pick(&[-32768i16, 32767, 0, -1, 1, -32767]) } else { r.u64() as i16 };
            v.extend(k.to_le_bytes());
            model.push(Smp::Raw(k));
        }
    }
    if bytes % 2 == 1 {
        v.push(0);
    }
    let post = s.get("post").max(0) as usize;
    if post > 0 {
        chunk(&mut v, post, b"LIST", &mut r, if how & 32 != 0 { Some(b"data") } else { None });
    }
    let whole = (v.len() - 8) as u32;
    let riff = if how & 16 != 0 && bytes > 0 { r.pick(&[0, u32::MAX, whole + 1, whole - 1, bytes as u32]) } else { whole };
    v[4..8].copy_from_slice(&riff.to_le_bytes());
    (ch, rate, v, model)
}

pub struct Exec<'a> {
    prop: &'a str,
    a: BTreeMap<i64, A>,
    w: BTreeMap<i64, W>,
    files: BTreeMap<i64, FileS>,
    pub out: Outcome,
    pool: Pool,
    thread: usize,
    verbose: bool,
    last_shape: u64,
    seq: u64,
    clock: u64,
    /// C16: per session observation log
    pub obs: BTreeMap<i64, Vec<(bool, u64)>>,
    /// C16: run only this session / drop observer steps
    only: Option<i64>,
    no_observers: bool,
    counts: u64,
    /// how 8-bit samples are played, NaN: not seen yet
    byte_value: [f32; 256],
}

pub fn fault_stats(o: &mut Outcome, dir: &str, f: &crate::io::Fired, buffered: bool) {
    let counts = [
        (format!("fault_{dir}_short"), f.short),
        (format!("fault_{dir}_interrupted"), f.intr),
        (format!("fault_{dir}_error"), f.hard - f.zero - f.seek),
        (format!("fault_{dir}_accepts_nothing"), f.zero),
        (format!("fault_{dir}_seek_error"), f.seek),
        (format!("buffered_{dir}"), buffered as u64),
        ("io_calls".into(), f.ops),
    ];
    for (k, v) in counts {
        if v > 0 {
            *o.stats.entry(k).or_insert(0) += v;
        }
    }
    o.nontrivial |= f.short + f.intr + f.hard > 0 || buffered;
}
pub fn io_of(s: &Step) -> Io {
    Io {
        seed: s.get("ios") as u64,
        short: s.get("short"),
        intr: s.get("intr"),
        fail: s.opt("fail", -1),
        kind: s.get("kind"),
        buf: s.opt("cap", -1),
        seekfail: s.get("sfail"),
        once: s.get("once"),
    }
}
fn bucket(v: i64) -> u64 {
    if v <= 4 && v >= -4 {
        (v + 4) as u64
    } else {
        16 + (64 - v.unsigned_abs().leading_zeros()) as u64 + if v < 0 { 64 } else { 0 }
    }
}
pub fn hash_f32(v: &[f32]) -> u64 {
    v.iter().fold(v.len() as u64, |h, x| (h ^ x.to_bits() as u64).wrapping_mul(0x100000001b3).rotate_left(23))
}
pub fn hash_u8(v: &[u8]) -> u64 {
    v.iter().fold(v.len() as u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(9))
}
const SENTINEL: u32 = 0x4640_e6b7; // 12345.679

pub fn seek_targets(rate: u32, ms: i128, total: usize, base: i128) -> Vec<usize> {
    // admissible landing frames for a displacement of ms milliseconds from frame `base`
    let num = rate as i128 * ms;
    let exact = num / 1000; // toward zero
    let tol: i128 = if num == 0 || (rate % 1000 == 0 && num.abs() / 1000 < (1 << 23)) {
        0
    } else {
        1 + (exact.abs() >> 21)
    };
    let cl = |p: i128| p.clamp(0, total as i128) as usize;
    let (lo, hi) = (cl(base + exact - tol), cl(base + exact + tol));
    (lo..=hi).collect()
}

impl<'a> Exec<'a> {
    pub fn new(prop: &'a str, verbose: bool) -> Self {
        Exec {
            prop,
            a: BTreeMap::new(),
            w: BTreeMap::new(),
            files: BTreeMap::new(),
            out: Outcome::default(),
            pool: Pool { tx: vec![] },
            thread: 0,
            verbose,
            last_shape: 0,
            seq: 0,
            clock: 0,
            obs: BTreeMap::new(),
            only: None,
            no_observers: false,
            counts: 0,
            byte_value: [f32::NAN; 256],
        }
    }
    fn is(&self, p: &[&str]) -> bool {
        p.contains(&self.prop)
    }
    /// a violation of one of the properties `p`; ignored while another property is being decided
    fn fail(&self, p: &[&str], class: &str, detail: String) -> R {
        if p.is_empty() || self.is(p) {
            Err(Viol { class: class.into(), detail })
        } else {
            Ok(())
        }
    }
    fn stat(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.out.stats.entry(k.to_string()).or_insert(0) += n;
        }
    }
    fn observe(&mut self, v: u64) {
        self.out.trace = mix2(self.out.trace, v);
    }
    fn shape(&mut self, step: &Step, extra: u64) {
        let mut h = crate::rng::hash_str(step.op);
        for k in ["n", "buf", "ch", "level", "sig", "kind"] {
            if let Some(e) = step.kv.iter().find(|e| e.0 == k) {
                h = mix2(h, mix2(crate::rng::hash_str(k), bucket(e.1)));
            }
        }
        h = mix2(h, extra);
        self.out.shape = mix2(self.out.shape, h);
        self.out.edges.push(mix2(self.last_shape, h));
        self.last_shape = h;
    }
    fn say(&mut self, s: &Step, msg: String) {
        if self.verbose {
            self.out.log.push(format!("[{}us] {} {:?} -> {msg}", s.t, s.op, s.kv));
        }
    }

    pub fn run(&mut self, plan: &Plan) -> R {
        for st in &plan.steps {
            if let Some(o) = self.only {
                if st.op != "thread" && st.opt("s", o) != o {
                    continue;
                }
            }
            self.step(st)?;
        }
        Ok(())
    }

    fn step(&mut self, s: &Step) -> R {
        seams::env::advance(s.t.saturating_sub(self.clock) * 1000);
        self.clock = self.clock.max(s.t);
        seams::sched::point();
        self.stat(&format!("op_{}", s.op), 1);
        if matches!(s.op, "enc" | "rewind" | "dec" | "drain" | "seek") {
            if let Some(a) = self.a.get_mut(&s.get("s")) {
                a.history = s.kv.iter().filter(|e| e.0 != "s").fold(mix2(a.history, crate::rng::hash_str(s.op)), |h, e| mix2(h, mix2(crate::rng::hash_str(e.0), e.1 as u64)));
            }
        }
        match s.op {
            "thread" => {
                self.thread = s.get("to") as usize;
                if self.pool.tx.is_empty() && self.thread > 0 {
                    self.pool = Pool::new(3);
                }
                Ok(())
            }
            "new" => self.a_new(s),
            "enc" => self.a_encode(s),
            "rewind" => self.a_rewind(s),
            "dec" => self.a_decode(s),
            "drain" => self.a_drain(s),
            "seek" => self.a_seek(s),
            "save" | "savecrash" => self.a_save(s),
            "load" => self.a_load(s),
            "count" => self.a_count(s),
            "bound" => self.a_boundq(s),
            "info" => self.a_infoq(s),
            "long" | "wlong" => {
                let bits = if s.op == "long" { crate::long::run(s, &self.prop)? } else { crate::long::run_wav(s, &self.prop)? };
                self.stat("very_long_recordings", 1);
                self.stat("recordings_over_2^32_bits", (bits > 1 << 32) as u64);
                self.out.nontrivial = true;
                self.observe(bits);
                self.say(s, format!("{bits} bits"));
                self.shape(s, bucket(bits as i64));
                Ok(())
            }
            "recover" => self.a_recover(s),
            "final" => self.a_final(s),
            "wnew" => self.w_new(s),
            "wenc" => self.w_encode(s),
            "wdec" => self.w_decode(s),
            "wdrain" => self.w_drain(s),
            "wseek" => self.w_seek(s),
            "wsave" => self.w_save(s),
            "wload" => self.w_load(s),
            "wforeign" => self.w_foreign(s),
            "cut" | "poke" | "fill" | "move" | "field" | "garbage" | "splice" | "number" | "stretch" => self.damage(s),
            _ => Ok(()),
        }
    }
    fn obs_push(&mut self, s: &Step, v: u64) {
        self.observe(v);
        if self.prop == "C16" {
            // results of read-only calls are marked
            let look = matches!(s.op, "count" | "info" | "bound") || (matches!(s.op, "save" | "wsave") && s.get("len") == 0);
            self.obs.entry(s.get("s")).or_default().push((look, v));
        }
    }

    // ------------------------------------------------------------------------------ AdhocCodec

    fn a_new(&mut self, s: &Step) -> R {
        let ch = s.opt("ch", 1).clamp(1, 1 << 20) as usize;
        let rate = s.opt("rate", 44100) as u32;
        let level = s.get("level") as u32;
        let how = s.get("how");
        let info = StreamInfo::new(rate, ch as u32);
        let codec = self.pool.run(self.thread, || {
            let mut c = AdhocCodec::new();
            match how {
                0 => c.with_compression_level(level).with_info(info),
                1 => c.with_info(info).with_compression_level(level),
                2 => {
                    c = c.with_compression_level(level);
                    c.set_info(info);
                    c
                }
                _ => {
                    // info corrected before the first encode
                    c.set_info(StreamInfo::new(rate, if ch == 1 { 2 } else { 1 }));
                    c.set_info(info);
                    c.with_compression_level(level)
                }
            }
        });
        self.shape(s, 0);
        self.a.insert(
            s.get("s"),
            A {
                codec: Box::new(codec),
                ch,
                rate,
                level: level.min(10),
                input: vec![],
                mode: Mode::Rec,
                fresh: true,
                cands: vec![0],
                canon: None,
                damaged: false,
                declared: None,
                from_len: 0,
                recordings: 1,
                history: [ch as i64, rate as i64, level as i64, how].iter().fold(0, |h, x| mix2(h, *x as u64)),
                chunks: vec![],
            },
        );
        if self.is(&["C01"]) {
            self.a_infoq(s)?;
        }
        Ok(())
    }

    fn a_encode(&mut self, s: &Step) -> R {
        let th = self.thread;
        let Some(a) = self.a.get_mut(&s.get("s")) else { return Ok(()) };
        if a.mode == Mode::Play {
            if !a.fresh || s.get("n") <= 0 {
                // (whether an empty chunk starts a new recording is left open)
                return Ok(());
            }
            if s.kv.iter().any(|e| matches!(e.0, "ch" | "rate" | "level")) {
                // the new recording has another format
                a.ch = s.opt("ch", a.ch as i64).clamp(1, 65535) as usize;
                a.rate = s.opt("rate", a.rate as i64) as u32;
                let info = StreamInfo::new(a.rate, a.ch as u32);
                let level = s.kv.iter().find(|e| e.0 == "level").map(|e| e.1 as u32);
                a.level = level.unwrap_or(a.level).min(10);
                let codec = &mut a.codec;
                let set = s.get("kind");
                self.pool.run(th, || {
                    let mut c = std::mem::replace(&mut **codec, AdhocCodec::new());
                    if set == 0 {
                        c.set_info(info);
                    }
                    if let Some(l) = level {
                        c = c.with_compression_level(l);
                    }
                    if set != 0 {
                        c = c.with_info(info);
                    }
                    **codec = c;
                });
                *self.out.stats.entry("rerecord_in_another_format".into()).or_insert(0) += 1;
            }
            a.mode = Mode::Rec;
            a.input.clear();
            a.chunks.clear();
            a.recordings += 1;
            a.damaged = false;
            a.declared = None;
        }
        let n = s.get("n").max(0) as usize;
        let start = a.input.len() / a.ch;
        let (v, whole) = mic(s, start, a.ch);
        let extra = v.len() - whole;
        let pool = &self.pool;
        let codec = &mut a.codec;
        let ret = pool.run(th, || a_enc(codec, &v));
        a.input.extend_from_slice(&v[..whole]);
        a.chunks.push((s.clone(), start));
        a.fresh = false;
        a.canon = None;
        let (ch, rate, reuse) = (a.ch as u64, a.rate, a.recordings > 1);
        let irregular = n < 3 || n > 65535 || extra > 0 || reuse;
        self.out.nontrivial |= irregular;
        self.stat("frames_encoded", n as u64);
        if rate > 0 {
            self.stat("sim_audio_us", (n as u64).saturating_mul(1_000_000) / rate as u64);
        }
        self.stat("chunk_empty", (n == 0) as u64);
        self.stat("chunk_tiny", (n == 1 || n == 2) as u64);
        self.stat("chunk_giant", (n > 65535) as u64);
        self.stat("chunk_partial_frame", (extra > 0) as u64);
        self.stat("rerecord_chunks", reuse as u64);
        let _ = ch;
        self.obs_push(s, ret.map(|x| x as u64 + 1).unwrap_or(0));
        self.shape(s, 0);
        self.say(s, format!("{ret:?}"));
        if ret != Some(whole) {
            self.fail(
                &["C17"],
                "encode-return",
                format!("encode of {} samples ({} whole frames of {} channels) returned {ret:?}", v.len(), n, ch),
            )?;
        }
        if self.is(&["C17"]) {
            self.a_count(s)?;
        }
        Ok(())
    }

    fn a_rewind(&mut self, s: &Step) -> R {
        let th = self.thread;
        let Some(a) = self.a.get_mut(&s.get("s")) else { return Ok(()) };
        let codec = &mut a.codec;
        let how = s.get("how");
        self.pool.run(th, || if how == 0 { codec.init() } else { codec.seek(SeekFrom::Start(0)) });
        a.mode = Mode::Play;
        a.fresh = true;
        a.cands = vec![0];
        self.shape(s, 0);
        self.say(s, "ok".into());
        if self.is(&["C17"]) {
            self.a_count(s)?;
        }
        Ok(())
    }

    /// uninterrupted playback of what the session holds: a fresh codec loaded from its bytes, read at one go
    fn canon(&mut self, id: i64) -> R<Option<Rc<Vec<f32>>>> {
        let a = self.a.get(&id).unwrap();
        if let Some(c) = &a.canon {
            return Ok(Some(c.clone()));
        }
        let Some(bytes) = a_bytes(&a.codec) else {
            return Err(Viol { class: "save-failed".into(), detail: "save_to a Vec failed".into() });
        };
        let Some(mut c) = AdhocCodec::load(&bytes[..]) else {
            return Err(Viol { class: "load-failed".into(), detail: format!("load of {} undamaged bytes failed", bytes.len()) });
        };
        let declared = c.calculate_sample_count_per_channel();
        let ch = a.ch;
        let (input_frames, level) = (a.input.len() / ch, a.level);
        let _ = level;
        let mut buf = vec![0f32; (input_frames + 3) * ch];
        let mut out = vec![];
        while let Some(n) = a_dec(&mut c, &mut buf) {
            out.extend_from_slice(&buf[..n]);
            if out.len() > a.input.len() + 70000 * ch {
                break;
            }
        }
        if (out.len() / ch) as u64 != declared {
            self.fail(
                &["C03", "C04", "C17"],
                "early-end",
                format!("a full read delivered {} frames of {declared} declared ({input_frames} recorded)", out.len() / ch),
            )?;
        }
        let rc = Rc::new(out);
        self.a.get_mut(&id).unwrap().canon = Some(rc.clone());
        Ok(Some(rc))
    }

    fn a_pull(&mut self, s: &Step, id: i64, blen: usize) -> R<Option<Vec<f32>>> {
        let th = self.thread;
        let a = self.a.get_mut(&id).unwrap();
        let ch = a.ch;
        let mut buf = vec![f32::from_bits(SENTINEL); blen];
        let codec = &mut a.codec;
        let ret = self.pool.run(th, || a_dec(codec, &mut buf));
        a.fresh = a.fresh && ret.is_none() && blen < ch;
        let n = ret.unwrap_or(0);
        let _ = s;
        if n > blen || n % ch != 0 || ret == Some(0) {
            self.fail(&["C03"], "bad-count", format!("decode into {blen} samples ({ch} channels) returned {ret:?}"))?;
            if n > blen {
                return Ok(None);
            }
        }
        if let Some(i) = buf[n..].iter().position(|x| x.to_bits() != SENTINEL) {
            self.fail(
                &["C03"],
                "tail-touched",
                format!("decode returned {ret:?} but changed sample {} of {blen} to {:?}", n + i, buf[n + i]),
            )?;
        }
        buf.truncate(n);
        Ok(ret.map(|_| buf))
    }

    fn a_decode(&mut self, s: &Step) -> R {
        let id = s.get("s");
        let Some(a) = self.a.get(&id) else { return Ok(()) };
        if a.mode == Mode::Rec {
            return Ok(());
        }
        let blen = s.get("buf").clamp(0, 1 << 22) as usize;
        let judge = self.is(&["C03", "C04"]) && !a.damaged;
        let canon = if judge { self.canon(id)? } else { None };
        let got = self.a_pull(s, id, blen)?;
        self.obs_push(s, got.as_ref().map(|v| hash_f32(v)).unwrap_or(7));
        let n = got.as_ref().map(|v| v.len()).unwrap_or(0);
        self.shape(s, bucket(n as i64));
        self.say(s, format!("{:?}", got.as_ref().map(|v| v.len())));
        self.stat("frames_decoded", n as u64);
        let a = self.a.get_mut(&id).unwrap();
        self.out.nontrivial = true;
        if let Some(canon) = canon {
            let ch = a.ch;
            let total = canon.len() / ch;
            let before = a.cands.clone();
            match &got {
                Some(v) => a.cands = before
                    .iter()
                    .copied()
                    .filter(|&p| (p + n / ch) <= total && canon[p * ch..p * ch + n] == v[..])
                    .map(|p| p + n / ch)
                    .collect(),
                None if blen >= ch => a.cands.retain(|&p| p == total),
                None => {}
            }
            if a.cands.is_empty() {
                let det = match &got {
                    Some(v) => {
                        let p = before[0];
                        let bad = (0..n).find(|&i| canon.get(p * ch + i) != Some(&v[i])).unwrap_or(0);
                        format!(
                            "decode({blen}) at frame {before:?} of {total} delivered {n} samples; sample {bad} is {:?}, one large read gives {:?}",
                            v.get(bad),
                            canon.get(p * ch + bad)
                        )
                    }
                    None => format!("decode({blen}) at frame {before:?} of {total} returned None before the end"),
                };
                self.fail(&["C03", "C04"], if got.is_some() { "wrong-audio" } else { "premature-none" }, det)?;
            }
        }
        if self.is(&["C17"]) {
            self.a_count(s)?;
        }
        Ok(())
    }

    fn a_drain(&mut self, s: &Step) -> R {
        let id = s.get("s");
        let Some(a) = self.a.get(&id) else { return Ok(()) };
        if a.mode == Mode::Rec {
            return Ok(());
        }
        let ch = a.ch;
        let damaged = a.damaged;
        let from_start = a.cands == [0];
        let total = a.input.len() / ch;
        let judge = self.is(&["C03", "C04"]) && !damaged;
        let canon = if judge { self.canon(id)? } else { None };
        let (lo, hi) = (s.opt("lo", 1024).max(ch as i64), s.opt("hi", 1024).max(ch as i64));
        let mut r = Rng::new(s.get("seed") as u64);
        let mut out: Vec<f32> = vec![];
        let limit_frames = if damaged {
            65536usize.saturating_mul(self.a[&id].from_len / 16 + 2)
        } else {
            total + 70000
        };
        let mut pulls = 0u64;
        let mut samples = 0usize;
        let mut h = 0u64;
        loop {
            let b = r.range(lo, hi).clamp(1, 1 << 22) as usize;
            let Some(v) = self.a_pull(s, id, b)? else { break };
            pulls += 1;
            samples += v.len();
            if v.is_empty() {
                // Some(0): reported above where it is a violation; never spin on it
                if pulls > 1_000_000 {
                    return Err(Viol { class: "no-end".into(), detail: "decode keeps returning Some(0)".into() });
                }
                continue;
            }
            h = mix2(h, hash_f32(&v));
            if samples / ch > limit_frames {
                return self.fail(&[], "no-end", format!("decode delivered {samples} samples ({ch} channels) without reaching an end; {total} frames were recorded"));
            }
            if damaged {
                if samples > 1_500_000 {
                    break;
                }
            } else {
                out.extend_from_slice(&v);
            }
        }
        self.stat("frames_decoded", (samples / ch) as u64);
        self.stat("pulls", pulls);
        self.obs_push(s, if self.prop == "C16" { hash_f32(&out) } else { h });
        self.shape(s, bucket(pulls as i64));
        self.say(s, format!("{samples} samples in {pulls} pulls"));
        if damaged {
            return Ok(());
        }
        self.out.nontrivial |= pulls > 1;
        if let Some(canon) = canon {
            let ctot = canon.len() / ch;
            let n = out.len();
            let a = self.a.get_mut(&id).unwrap();
            let before = a.cands.clone();
            let ok = before.iter().any(|&p| p * ch + n == canon.len() && canon[p * ch..] == out[..]);
            a.cands = vec![ctot];
            if !ok {
                let p = before[0];
                let bad = (0..n.min(canon.len().saturating_sub(p * ch))).find(|&i| canon[p * ch + i] != out[i]);
                self.fail(
                    &["C03", "C04"],
                    "wrong-audio",
                    format!(
                        "draining from frame {before:?} of {ctot} delivered {} frames; first difference from one large read: {bad:?}",
                        n / ch
                    ),
                )?;
            }
            // the end is permanent
            for b in [ch, 4 * ch + 1] {
                if let Some(v) = self.a_pull(s, id, b)? {
                    self.fail(&["C03", "C04"], "audio-after-end", format!("{} samples delivered after None", v.len()))?;
                }
            }
        }
        let a = self.a.get_mut(&id).unwrap();
        a.fresh = false;
        let (level, input) = (a.level, std::mem::take(&mut a.input));
        if from_start {
            let props_fine: &[&str] = &["C02", "C05", "C18"];
            if self.is(props_fine) {
                if let Some((c, d)) = check_audio(&out, &input, ch, level, true) {
                    return self.fail(props_fine, &c, d);
                }
                self.stat("samples_checked_against_bound", out.len() as u64);
            }
            if self.is(&["C01"]) {
                if let Some((c, d)) = check_audio(&out, &input, ch, level, false) {
                    return self.fail(&["C01"], &c, d);
                }
                self.stat("samples_checked", out.len() as u64);
            }
            if self.is(&["C17"]) && out.len() != input.len() {
                return self.fail(
                    &["C17"],
                    "decoded-count",
                    format!("{} frames accepted, a full decode delivers {}", input.len() / ch, out.len() / ch),
                );
            }
        }
        let a = self.a.get_mut(&id).unwrap();
        a.input = input;
        a.cands = vec![total];
        if self.is(&["C17"]) {
            self.a_count(s)?;
        }
        Ok(())
    }

    fn a_seek(&mut self, s: &Step) -> R {
        let th = self.thread;
        let id = s.get("s");
        let Some(a) = self.a.get_mut(&id) else { return Ok(()) };
        let ms = s.get("ms") as u64;
        let damaged = a.damaged;
        let codec = &mut a.codec;
        self.pool.run(th, || codec.seek(SeekFrom::Start(ms)));
        a.mode = Mode::Play;
        a.fresh = ms == 0;
        let total = a.input.len() / a.ch;
        a.cands = seek_targets(a.rate, ms as i128, total, 0);
        self.out.nontrivial = true;
        let cl = if damaged { 9 } else { bucket((a.cands[0] as i64).min(total as i64)) };
        self.stat("seek_past_end", (!damaged && a_past(total, self.a[&id].rate, ms)) as u64);
        self.shape(s, cl);
        let c = self.a[&id].cands.clone();
        self.say(s, format!("frames {c:?} of {total}"));
        if self.is(&["C04"]) && !damaged {
            let canon = self.canon(id)?.unwrap();
            let ctot = canon.len() / self.a[&id].ch;
            if ctot != total {
                let rate = self.a[&id].rate;
                self.a.get_mut(&id).unwrap().cands = seek_targets(rate, ms as i128, ctot, 0);
            }
        }
        if self.is(&["C17"]) {
            self.a_count(s)?;
        }
        Ok(())
    }

    fn a_save(&mut self, s: &Step) -> R {
        let th = self.thread;
        let id = s.get("s");
        let Some(a) = self.a.get(&id) else { return Ok(()) };
        if self.no_observers && s.get("len") == 0 {
            return Ok(());
        }
        let codec = &a.codec;
        let full = match self.pool.run(th, || a_bytes(codec)) {
            Some(b) => b,
            None => return Err(Viol { class: "save-failed".into(), detail: "undisturbed save_to reported failure".into() }),
        };
        let mut io = io_of(s);
        if s.op == "savecrash" {
            io.fail = (full.len() as i128 * s.get("keep") as i128 / 1000) as i64;
            io.kind = 0;
            io.once = 0;
        } else if s.kv.iter().any(|e| e.0 == "keep") && io.fail >= 0 {
            io.fail = (full.len() as i128 * s.get("keep") as i128 / 1000) as i64;
        }
        let (sink, st) = Sink::new(&io);
        let codec = &self.a[&id].codec;
        let ret = codec.save_to(sink);
        let st = st.borrow();
        let a = &self.a[&id];
        let f = FileS {
            bytes: st.delivered.clone(),
            wav: false,
            ch: a.ch,
            rate: a.rate,
            level: a.level,
            input: if a.damaged { vec![] } else { a.input.clone() },
            model: vec![],
            full: full.clone(),
            complete: st.delivered == full,
            damaged: a.damaged,
            acked: ret.is_some() && s.op != "savecrash",
            order: self.seq,
            declared: a.declared,
        };
        self.seq += 1;
        let ok = ret.is_some();
        let fired = st.fired.clone();
        let same = st.delivered == full;
        let dlen = st.delivered.len();
        self.io_stats("write", &fired, io.buf >= 0);
        self.obs_push(s, mix2(hash_u8(&full), mix2(hash_u8(&st.delivered), ok as u64)));
        self.shape(s, (ok as u64) | (fired.hard.min(1) << 1) | (fired.short.min(3) << 2) | (fired.intr.min(3) << 4));
        self.say(s, format!("{ok} {dlen}/{} bytes, {fired:?}", full.len()));
        self.judge_save(ok, same, dlen, full.len(), &fired, "AdhocCodec")?;
        if self.is(&["C10"]) {
            self.a_boundq(s)?;
        }
        self.files.insert(s.get("f"), f);
        if s.op == "savecrash" {
            self.stat("crash_during_save", 1);
            self.a.remove(&id);
        }
        Ok(())
    }
    fn judge_save(&mut self, ok: bool, same: bool, got: usize, want: usize, f: &crate::io::Fired, who: &str) -> R {
        if ok && !same {
            self.fail(
                &["C06", "C18"],
                "acked-incomplete",
                format!("{who}::save_to reported success but {got} bytes reached the medium intact of {want} ({f:?})"),
            )?;
        }
        if ok && f.hard > 0 {
            self.fail(&["C06"], "error-swallowed", format!("{who}::save_to reported success after an I/O error ({f:?})"))?;
        }
        if !ok && f.hard == 0 {
            self.fail(
                &["C06", "C18"],
                "spurious-failure",
                format!("{who}::save_to failed although only short or interrupted writes happened ({f:?})"),
            )?;
        }
        Ok(())
    }
    fn io_stats(&mut self, dir: &str, f: &crate::io::Fired, buffered: bool) {
        fault_stats(&mut self.out, dir, f, buffered);
    }

    fn a_load(&mut self, s: &Step) -> R {
        let th = self.thread;
        let Some(f) = self.files.get(&s.get("f")) else { return Ok(()) };
        if f.wav {
            return Ok(());
        }
        let f = f.clone();
        let io = io_of(s);
        let mut data = f.bytes.clone();
        let trail = s.get("trail").max(0) as usize;
        let mut r = Rng::new(io.seed ^ 0x7a11);
        for _ in 0..trail {
            data.push(r.u64() as u8);
        }
        if f.damaged {
            // working memory: proportional to the file and the frames it can declare
            seams::alloc::limit((64 << 20) + 40_000 * f.bytes.len());
        }
        let (mut src, st) = Source::new(&data, &io);
        let loaded = if trail > 0 {
            AdhocCodec::load(&mut src)
        } else {
            AdhocCodec::load(src)
        };
        let fired = st.borrow().fired.clone();
        let pos = st.borrow().pos;
        self.io_stats("read", &fired, io.buf > 0);
        let ok = loaded.is_some();
        self.obs_push(s, ok as u64);
        self.shape(s, (ok as u64) | (fired.hard.min(1) << 1) | ((f.complete as u64) << 2) | ((f.damaged as u64) << 3));
        self.say(s, format!("{ok} consumed {pos} of {} {fired:?}", f.bytes.len()));
        let id = s.get("s");
        self.a.remove(&id);
        if fired.hard > 0 {
            if ok {
                self.fail(&["C07"], "partial-load", format!("load succeeded after a read error at byte {pos} of {}", f.bytes.len()))?;
            }
            return Ok(());
        }
        if !f.damaged && !f.complete {
            // torn
            self.stat("torn_loads", 1);
            self.out.nontrivial = true;
            if ok && trail == 0 && f.bytes.len() < f.full.len() {
                self.fail(
                    &["C08"],
                    "torn-accepted",
                    format!("load accepted the first {} of {} bytes of a saved recording", f.bytes.len(), f.full.len()),
                )?;
            }
            return Ok(());
        }
        // without a chunk, nothing in the file vouches for so many channels
        if !f.damaged && !ok && (f.ch <= 65535 || !f.input.is_empty()) {
            return Err(Viol {
                class: "load-failed".into(),
                detail: format!("load of a complete {} byte file failed ({fired:?})", f.bytes.len()),
            });
        }
        let Some(codec) = loaded else { return Ok(()) };
        if !f.damaged && self.is(&["C07"]) {
            if pos != f.bytes.len() as u64 {
                self.fail(&["C07"], "framing", format!("load consumed {pos} bytes of a {} byte recording", f.bytes.len()))?;
            }
            let twin = AdhocCodec::load(Cursor::new(&f.bytes[..]));
            let same = match &twin {
                Some(t) => a_bytes(t) == a_bytes(&codec) && a_info(t) == a_info(&codec),
                None => false,
            };
            if !same {
                self.fail(&["C07"], "differs", format!("a load with {fired:?} differs from an undisturbed load"))?;
            }
        }
        if f.damaged {
            self.stat("damaged_accepted", 1);
        }
        let (rate, ch) = a_info(&codec);
        if !f.damaged && (rate != f.rate as usize || ch != f.ch) {
            self.fail(&["C01", "C05", "C18"], "info", format!("info after load is {rate} Hz {ch} ch, recorded {} Hz {} ch", f.rate, f.ch))?;
        }
        let _ = th;
        self.a.insert(
            id,
            A {
                codec: Box::new(codec),
                ch: if f.damaged { ch.max(1) } else { f.ch },
                rate: if f.damaged { rate as u32 } else { f.rate },
                level: f.level,
                input: f.input.clone(),
                mode: Mode::Play,
                fresh: false,
                cands: vec![0],
                canon: None,
                damaged: f.damaged,
                declared: f.declared.filter(|_| f.damaged),
                from_len: f.bytes.len(),
                recordings: 1,
                history: mix2(77, s.t),
                chunks: vec![],
            },
        );
        if self.is(&["C17"]) {
            self.a_count(s)?;
        }
        Ok(())
    }

    fn a_count(&mut self, s: &Step) -> R {
        let Some(a) = self.a.get(&s.get("s")) else { return Ok(()) };
        if self.no_observers {
            return Ok(());
        }
        // counting takes time proportional to the number of chunks; in endless sessions look less often
        self.counts += 1;
        if s.op != "count" && self.counts > 1000 && self.counts % 97 != 0 {
            return Ok(());
        }
        let codec = &a.codec;
        let n = self.pool.run(self.thread, || codec.calculate_sample_count_per_channel());
        let a = &self.a[&s.get("s")];
        let want = a.declared.unwrap_or((a.input.len() / a.ch) as u64);
        let damaged = a.damaged && a.declared.is_none();
        self.obs_push(s, n);
        self.stat("count_checks", 1);
        if !damaged && n != want {
            self.fail(&["C17", "C05"], "sample-count", format!("calculate_sample_count_per_channel() is {n} after {want} frames were accepted (at {})", s.op))?;
        }
        Ok(())
    }
    fn a_infoq(&mut self, s: &Step) -> R {
        let Some(a) = self.a.get(&s.get("s")) else { return Ok(()) };
        if self.no_observers {
            return Ok(());
        }
        let codec = &a.codec;
        let (rate, ch) = self.pool.run(self.thread, || a_info(codec));
        self.obs_push(s, (rate as u64) << 20 | ch as u64);
        let a = &self.a[&s.get("s")];
        if !a.damaged && (rate != a.rate as usize || ch != a.ch) {
            let d = format!("info() is {rate} Hz {ch} ch, configured {} Hz {} ch", a.rate, a.ch);
            self.fail(&["C01", "C05"], "info", d)?;
        }
        Ok(())
    }
    fn a_boundq(&mut self, s: &Step) -> R {
        let Some(a) = self.a.get(&s.get("s")) else { return Ok(()) };
        if self.no_observers {
            return Ok(());
        }
        let codec = &a.codec;
        let ub = self.pool.run(self.thread, || a_bound(codec));
        self.obs_push(s, ub);
        if !self.is(&["C10"]) || self.a[&s.get("s")].damaged {
            return Ok(());
        }
        let Some(b) = a_bytes(&self.a[&s.get("s")].codec) else {
            return Err(Viol { class: "save-failed".into(), detail: "save_to a Vec failed".into() });
        };
        self.judge_bound(ub, b.len() as u64 * 8)
    }
    fn judge_bound(&mut self, ub: u64, size: u64) -> R {
        self.stat("bound_checks", 1);
        self.observe(size);
        if ub < size {
            self.fail(&["C10"], "bound-too-small", format!("filesize_upperbound() is {ub} bits, the file has {size}"))?;
        }
        if ub > size + size / 10 + 8192 {
            self.fail(&["C10"], "bound-too-loose", format!("filesize_upperbound() is {ub} bits, the file has {size}"))?;
        }
        Ok(())
    }

    /// C18: after a crash, load the newest usable snapshot
    fn a_recover(&mut self, s: &Step) -> R {
        let mut slots: Vec<(u64, i64)> = self.files.iter().map(|(k, f)| (f.order, *k)).collect();
        slots.sort();
        slots.reverse();
        // the newest acknowledged snapshot still on disk is the minimum that must come back
        let best_acked = self.files.values().filter(|f| f.acked).map(|f| f.input.len()).max();
        self.stat("recoveries", 1);
        self.out.nontrivial = true;
        for (_, k) in slots {
            let f = self.files[&k].clone();
            let Some(mut c) = AdhocCodec::load(&f.bytes[..]) else {
                if f.acked {
                    return self.fail(&["C18"], "acked-unreadable", format!("an acknowledged snapshot of {} bytes does not load", f.bytes.len()));
                }
                self.stat("torn_snapshots_rejected", 1);
                continue;
            };
            if f.bytes != f.full {
                return self.fail(&["C18"], "torn-accepted", format!("recovery accepted a torn snapshot ({} of {} bytes)", f.bytes.len(), f.full.len()));
            }
            let info = a_info(&c);
            if info != (f.rate as usize, f.ch) {
                return self.fail(&["C18"], "info", format!("recovered info {info:?}, recorded {} Hz {} ch", f.rate, f.ch));
            }
            let mut buf = vec![0f32; 509 * f.ch];
            let mut out = vec![];
            while let Some(n) = a_dec(&mut c, &mut buf) {
                out.extend_from_slice(&buf[..n]);
                if out.len() > f.input.len() + 100_000 * f.ch {
                    break;
                }
            }
            self.observe(hash_f32(&out));
            self.say(s, format!("recovered {} frames", out.len() / f.ch));
            if let Some((c, d)) = check_audio(&out, &f.input, f.ch, f.level, true) {
                return self.fail(&["C18"], &c, format!("recovered snapshot: {d}"));
            }
            if best_acked.map(|b| b > f.input.len()).unwrap_or(false) {
                return self.fail(&["C18"], "stale", "the newest loadable snapshot is older than an acknowledged one".into());
            }
            return Ok(());
        }
        if best_acked.is_some() {
            self.fail(&["C18"], "lost", "no snapshot loads although one was acknowledged".into())?;
        }
        self.files.clear();
        Ok(())
    }

    /// C18: the recording with snapshots equals the same recording without any
    fn a_final(&mut self, s: &Step) -> R {
        let Some(a) = self.a.get(&s.get("s")) else { return Ok(()) };
        let y = if s.get("x") > 0 {
            // a codec that was used before: its twin was given the same calls, and no snapshot
            match self.a.get(&s.get("x")) {
                Some(b) if b.history == a.history => a_bytes(&b.codec),
                _ => return Ok(()),
            }
        } else if a.recordings > 1 || a.mode != Mode::Rec {
            return Ok(());
        } else {
            let mut c = AdhocCodec::new()
                .with_compression_level(a.level)
                .with_info(StreamInfo::new(a.rate, a.ch as u32));
            for (st, start) in &a.chunks {
                a_enc(&mut c, &mic(st, *start, a.ch).0);
            }
            a_bytes(&c)
        };
        let x = a_bytes(&a.codec);
        if x != y {
            let d = match (&x, &y) {
                (Some(x), Some(y)) => format!("{} and {} bytes, first difference at {:?}", x.len(), y.len(), x.iter().zip(y.iter()).position(|(a, b)| a != b)),
                _ => "one of them cannot be saved".into(),
            };
            self.fail(&["C18"], "disturbed", format!("the recording with snapshots differs from the one without: {d}"))?;
        }
        self.stat("final_comparisons", 1);
        Ok(())
    }

    // ------------------------------------------------------------------------------ WavCodec

    fn w_new(&mut self, s: &Step) -> R {
        let ch = s.opt("ch", 1).clamp(1, 1 << 20) as usize;
        let rate = s.opt("rate", 44100) as u32;
        let codec = WavCodec::new(StreamInfo::new(rate, ch as u32));
        self.shape(s, 0);
        self.w.insert(s.get("s"), W { codec: Box::new(codec), ch, rate, model: vec![], cands: vec![0], damaged: false });
        Ok(())
    }
    fn w_encode(&mut self, s: &Step) -> R {
        let th = self.thread;
        let Some(w) = self.w.get_mut(&s.get("s")) else { return Ok(()) };
        if w.cands.len() != 1 && !w.damaged {
            return Ok(());
        }
        let p = w.cands[0];
        let n = s.get("n").max(0) as usize;
        let mut v = sig::gen(s.get("sig"), s.get("seed") as u64, s.opt("amp", 1_000_000), p, n, w.ch);
        let whole = v.len();
        let extra = (s.get("x").max(0) as usize) % w.ch;
        for i in 0..extra {
            v.push(0.25 + i as f32 * 0.001);
        }
        let codec = &mut w.codec;
        let ret = self.pool.run(th, || codec.encode(&v));
        let w = self.w.get_mut(&s.get("s")).unwrap();
        let overwrite = p * w.ch < w.model.len();
        if !w.damaged {
            for (i, &x) in v[..whole].iter().enumerate() {
                let at = p * w.ch + i;
                if at < w.model.len() {
                    w.model[at] = Smp::In(x);
                } else {
                    w.model.push(Smp::In(x));
                }
            }
            w.cands = vec![p + n];
        }
        let rate = w.rate;
        self.out.nontrivial |= n < 3 || extra > 0 || overwrite;
        self.stat("frames_encoded", n as u64);
        if rate > 0 {
            self.stat("sim_audio_us", (n as u64).saturating_mul(1_000_000) / rate as u64);
        }
        self.stat("chunk_empty", (n == 0) as u64);
        self.stat("chunk_tiny", (n == 1 || n == 2) as u64);
        self.stat("chunk_partial_frame", (extra > 0) as u64);
        self.stat("wav_overwrites", overwrite as u64);
        self.obs_push(s, ret.map(|x| x as u64 + 1).unwrap_or(0));
        self.shape(s, overwrite as u64);
        self.say(s, format!("{ret:?}"));
        if ret != Some(whole) {
            self.fail(&["C17"], "encode-return", format!("WavCodec::encode of {} samples ({} whole) returned {ret:?}", v.len(), whole))?;
        }
        if self.is(&["C10"]) {
            self.w_bound(s.get("s"))?;
        }
        Ok(())
    }
    fn w_bound(&mut self, id: i64) -> R {
        let w = &self.w[&id];
        let ub = w.codec.filesize_upperbound();
        match w_bytes(&w.codec) {
            Ok(b) => self.judge_bound(ub, b.len() as u64 * 8),
            Err(e) => Err(Viol { class: "save-failed".into(), detail: format!("WavCodec::save_to a Vec failed: {e}") }),
        }
    }
    fn w_pull(&mut self, id: i64, blen: usize) -> R<Option<Vec<f32>>> {
        let th = self.thread;
        let w = self.w.get_mut(&id).unwrap();
        let ch = w.ch;
        let mut buf = vec![f32::from_bits(SENTINEL); blen];
        let codec = &mut w.codec;
        let ret = self.pool.run(th, || codec.decode(&mut buf));
        let n = ret.unwrap_or(0);
        if n > blen || n % ch != 0 || ret == Some(0) {
            self.fail(
                &["C11", "C12", "C13", "C08"],
                "split-frame",
                format!("WavCodec::decode into {blen} samples ({ch} channels) returned {ret:?}"),
            )?;
            if n > blen {
                return Ok(None);
            }
        }
        buf.truncate(n);
        Ok(ret.map(|_| buf))
    }
    /// narrows the admissible positions by what was read
    fn w_judge(&mut self, id: i64, got: &Option<Vec<f32>>, blen: usize, must_progress: bool) -> R {
        let w = self.w.get_mut(&id).unwrap();
        if w.damaged {
            return Ok(());
        }
        let ch = w.ch;
        let total = w.model.len() / ch;
        let before = w.cands.clone();
        let n = got.as_ref().map(|v| v.len()).unwrap_or(0);
        match got {
            Some(v) => {
                w.cands = before
                    .iter()
                    .copied()
                    .filter(|&p| p * ch + n <= w.model.len() && v.iter().zip(&w.model[p * ch..]).all(|(y, e)| smp_ok(*e, *y)))
                    .map(|p| p + n / ch)
                    .collect()
            }
            None if must_progress => w.cands.retain(|&p| p == total),
            None => {}
        }
        if w.cands.is_empty() {
            let det = match got {
                Some(v) => {
                    let p = before[0];
                    let bad = (0..n).find(|&i| !w.model.get(p * ch + i).map(|e| smp_ok(*e, v[i])).unwrap_or(false));
                    format!(
                        "decode({blen}) at frame {before:?} of {total} ({ch} channels) delivered {n} samples; sample {bad:?} is {:?}, expected {:?}",
                        bad.and_then(|b| v.get(b)),
                        bad.and_then(|b| w.model.get(p * ch + b))
                    )
                }
                None => format!("decode({blen}) at frame {before:?} of {total} returned None before the end"),
            };
            w.cands = vec![total];
            self.fail(&["C11", "C12", "C13"], "wrong-audio", det)?;
        } else if let ([p], Some(v)) = (&before[..], got) {
            // however 8-bit samples are scaled, different ones stay different and in order
            let p = p * ch;
            let bytes: Vec<(u8, f32)> = v
                .iter()
                .enumerate()
                .filter_map(|(i, y)| match w.model.get(p + i) {
                    Some(Smp::Raw8(b)) => Some((*b, *y)),
                    _ => None,
                })
                .collect();
            for (b, y) in bytes {
                if self.byte_value[b as usize] == y {
                    continue;
                }
                self.byte_value[b as usize] = y;
                let l = self.byte_value;
                if (0..b as usize).any(|c| l[c] >= y) || (b as usize + 1..256).any(|c| l[c] <= y) {
                    self.fail(&["C13"], "wrong-audio", format!("the 8-bit sample {b} is played as {y}, like or across another one"))?;
                }
            }
        }
        Ok(())
    }
    fn w_decode(&mut self, s: &Step) -> R {
        let id = s.get("s");
        let Some(w) = self.w.get(&id) else { return Ok(()) };
        let ch = w.ch;
        let blen = s.get("buf").clamp(0, 1 << 22) as usize;
        let got = self.w_pull(id, blen)?;
        self.obs_push(s, got.as_ref().map(|v| hash_f32(v)).unwrap_or(7));
        let n = got.as_ref().map(|v| v.len()).unwrap_or(0);
        self.shape(s, bucket(n as i64));
        self.say(s, format!("{:?}", got.as_ref().map(|v| v.len())));
        self.stat("frames_decoded", (n / ch) as u64);
        self.w_judge(id, &got, blen, blen >= ch)
    }
    fn w_drain(&mut self, s: &Step) -> R {
        let id = s.get("s");
        let Some(w) = self.w.get(&id) else { return Ok(()) };
        let ch = w.ch;
        let (lo, hi) = (s.opt("lo", 1024).max(ch as i64), s.opt("hi", 1024).max(ch as i64));
        let mut r = Rng::new(s.get("seed") as u64);
        let mut h = 0;
        let mut pulls = 0i64;
        let mut total = 0usize;
        let cap = w.model.len() + 10_000_000;
        loop {
            let b = r.range(lo, hi).clamp(1, 1 << 22) as usize;
            let got = self.w_pull(id, b)?;
            self.w_judge(id, &got, b, true)?;
            let Some(v) = got else { break };
            pulls += 1;
            total += v.len();
            h = mix2(h, hash_f32(&v));
            if total > cap || (v.is_empty() && pulls > 1_000_000) {
                return Err(Viol { class: "no-end".into(), detail: format!("WavCodec::decode delivered {total} samples without an end") });
            }
        }
        self.stat("frames_decoded", (total / ch) as u64);
        self.obs_push(s, h);
        self.shape(s, bucket(pulls));
        self.say(s, format!("{total} samples in {pulls} pulls"));
        self.out.nontrivial |= pulls > 1;
        Ok(())
    }
    fn w_seek(&mut self, s: &Step) -> R {
        let th = self.thread;
        let id = s.get("s");
        let Some(w) = self.w.get_mut(&id) else { return Ok(()) };
        let ms = s.get("ms");
        let wh = s.get("w");
        let codec = &mut w.codec;
        self.pool.run(th, || {
            codec.seek(match wh {
                0 => SeekFrom::Start(ms as u64),
                1 => SeekFrom::Current(ms),
                _ => SeekFrom::End(ms),
            })
        });
        if !w.damaged {
            let total = w.model.len() / w.ch;
            let mut c: Vec<usize> = vec![];
            match wh {
                0 => c = seek_targets(w.rate, ms as u64 as i128, total, 0),
                1 => {
                    for &p in &w.cands.clone() {
                        c.extend(seek_targets(w.rate, ms as i128, total, p as i128));
                    }
                }
                _ => c = seek_targets(w.rate, ms as i128, total, total as i128),
            }
            c.sort();
            c.dedup();
            w.cands = c;
        }
        let cands = w.cands.clone();
        self.out.nontrivial = true;
        self.shape(s, mix2(wh as u64, bucket(cands[0] as i64)));
        self.say(s, format!("frames {cands:?}"));
        Ok(())
    }
    fn w_save(&mut self, s: &Step) -> R {
        let id = s.get("s");
        let Some(w) = self.w.get(&id) else { return Ok(()) };
        if self.no_observers && s.get("len") == 0 {
            return Ok(());
        }
        let full = match w_bytes(&w.codec) {
            // the header has 16 bits for the number of channels
            Ok(b) if w.ch > 65535 && self.prop == "C11" => {
                return Err(Viol { class: "header".into(), detail: format!("save_to reported success for a recording of {} channels, the header says {:?}", w.ch, b.get(22..24)) })
            }
            Err(_) if w.ch > 65535 => {
                self.stat("saves_refused_for_channels", 1);
                return Ok(());
            }
            Ok(b) => b,
            Err(e) => return Err(Viol { class: "save-failed".into(), detail: format!("undisturbed save_to: {e}") }),
        };
        let mut io = io_of(s);
        if s.kv.iter().any(|e| e.0 == "keep") && io.fail >= 0 {
            io.fail = (full.len() as i128 * s.get("keep") as i128 / 1000) as i64;
        }
        let (sink, st) = Sink::new(&io);
        let ok = w.codec.save_to(sink).is_ok();
        let st = st.borrow();
        let fired = st.fired.clone();
        let f = FileS {
            bytes: st.delivered.clone(),
            wav: true,
            ch: w.ch,
            rate: w.rate,
            level: 0,
            input: vec![],
            model: w.model.clone(),
            complete: st.delivered == full,
            full: full.clone(),
            damaged: w.damaged,
            acked: ok,
            order: self.seq,
            declared: None,
        };
        let same = f.complete;
        let dlen = f.bytes.len();
        let (ch, rate, n, damaged) = (w.ch, w.rate, w.model.len(), w.damaged);
        self.seq += 1;
        self.io_stats("write", &fired, io.buf >= 0);
        self.obs_push(s, mix2(hash_u8(&full), mix2(hash_u8(&st.delivered), ok as u64)));
        self.shape(s, (ok as u64) | (fired.hard.min(1) << 1) | (fired.short.min(3) << 2) | (fired.intr.min(3) << 4));
        self.say(s, format!("{ok} {dlen}/{} bytes, {fired:?}", full.len()));
        self.judge_save(ok, same, dlen, full.len(), &fired, "WavCodec")?;
        if self.is(&["C11"]) && !damaged {
            let u32at = |o: usize| full.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).unwrap_or(!0);
            let u16at = |o: usize| full.get(o..o + 2).map(|b| u16::from_le_bytes(b.try_into().unwrap())).unwrap_or(!0);
            let tag = |o: usize, t: &[u8]| full.get(o..o + 4) == Some(t);
            let bad = [
                ("length", full.len() != 44 + 2 * n),
                ("RIFF", !tag(0, b"RIFF")),
                ("riff size", u32at(4) as usize != full.len().wrapping_sub(8)),
                ("WAVE", !tag(8, b"WAVE")),
                ("fmt ", !tag(12, b"fmt ")),
                ("fmt size", u32at(16) != 16),
                ("format", u16at(20) != 1),
                ("channels", u16at(22) as usize != ch),
                ("rate", u32at(24) != rate),
                ("byte rate", u32at(28) != rate.wrapping_mul(ch as u32).wrapping_mul(2)),
                ("block align", u16at(32) != (ch as u16).wrapping_mul(2)),
                ("bits", u16at(34) != 16),
                ("data", !tag(36, b"data")),
                ("data size", u32at(40) as usize != 2 * n),
            ];
            if let Some(b) = bad.iter().find(|b| b.1) {
                self.fail(&["C11"], "header", format!("saved WAV of {n} samples, {ch} ch, {rate} Hz: wrong {} in {} bytes", b.0, full.len()))?;
            }
        }
        if self.is(&["C10"]) && !damaged {
            self.w_bound(id)?;
        }
        self.files.insert(s.get("f"), f);
        Ok(())
    }
    fn w_load(&mut self, s: &Step) -> R {
        let Some(f) = self.files.get(&s.get("f")) else { return Ok(()) };
        if !f.wav {
            return Ok(());
        }
        let f = f.clone();
        let io = io_of(s);
        if f.damaged {
            seams::alloc::limit((64 << 20) + 40_000 * f.bytes.len());
        }
        let (src, st) = Source::new(&f.bytes, &io);
        let loaded = WavCodec::load(src);
        let fired = st.borrow().fired.clone();
        self.io_stats("read", &fired, io.buf > 0);
        let ok = loaded.is_ok();
        self.obs_push(s, ok as u64);
        self.shape(s, (ok as u64) | (fired.hard.min(1) << 1) | ((f.complete as u64) << 2) | ((f.damaged as u64) << 3));
        self.say(s, format!("{:?} {fired:?}", loaded.as_ref().map(|_| ()).map_err(|e| *e)));
        let id = s.get("s");
        self.w.remove(&id);
        if fired.hard > 0 {
            if ok {
                self.fail(&["C07"], "partial-load", format!("WavCodec::load succeeded after a read error ({fired:?})"))?;
            }
            return Ok(());
        }
        let mut model = f.model.clone();
        if !f.damaged && !f.complete {
            self.stat("torn_loads", 1);
            self.out.nontrivial = true;
            let Ok(mut c) = loaded else { return Ok(()) };
            let (rate, ch) = w_info(&c);
            if (rate, ch) != (f.rate as usize, f.ch) {
                self.fail(&["C08"], "torn-other-audio", format!("torn WAV loads as {rate} Hz {ch} ch, saved {} Hz {} ch", f.rate, f.ch))?;
                return Ok(());
            }
            // whole-frame prefix
            let mut buf = vec![0f32; 37 * ch];
            let mut out: Vec<f32> = vec![];
            while let Some(n) = c.decode(&mut buf) {
                if n % ch != 0 {
                    self.fail(&["C08"], "split-frame", format!("torn WAV ({} of {} bytes, {ch} ch) delivers {n} samples", f.bytes.len(), f.full.len()))?;
                }
                out.extend_from_slice(&buf[..n]);
                if n == 0 || out.len() > model.len() + 1000 * ch {
                    break;
                }
            }
            if out.len() > model.len() || !out.iter().zip(&model).all(|(y, e)| smp_ok(*e, *y)) {
                self.fail(&["C08"], "torn-other-audio", format!("torn WAV ({} of {} bytes) is not a prefix of the saved audio", f.bytes.len(), f.full.len()))?;
            }
            model.truncate(out.len());
            return Ok(());
        }
        if !f.damaged && !ok {
            return Err(Viol {
                class: "load-failed".into(),
                detail: format!("WavCodec::load of a complete {} byte file failed: {:?} ({fired:?})", f.bytes.len(), loaded.err()),
            });
        }
        let Ok(codec) = loaded else { return Ok(()) };
        if !f.damaged && self.is(&["C07"]) {
            let same = match WavCodec::load(Cursor::new(&f.bytes[..])) {
                Ok(t) => w_bytes(&t) == w_bytes(&codec) && w_info(&t) == w_info(&codec),
                Err(_) => false,
            };
            if !same {
                self.fail(&["C07"], "differs", format!("a WAV load with {fired:?} differs from an undisturbed load"))?;
            }
        }
        let (rate, ch) = w_info(&codec);
        if !f.damaged && (rate != f.rate as usize || ch != f.ch) {
            self.fail(&["C11", "C13"], "info", format!("info after load is {rate} Hz {ch} ch, saved {} Hz {} ch", f.rate, f.ch))?;
        }
        if f.damaged {
            self.stat("damaged_accepted", 1);
        }
        self.w.insert(
            id,
            W {
                codec: Box::new(codec),
                ch: if f.damaged { ch.max(1) } else { f.ch },
                rate: f.rate,
                model,
                cands: vec![0],
                damaged: f.damaged,
            },
        );
        Ok(())
    }
    /// a WAV file written by somebody else
    fn w_foreign(&mut self, s: &Step) -> R {
        seams::alloc::unlimited();
        let (ch, rate, v, model) = foreign_wav(s);
        self.stat("foreign_wavs", 1);
        self.stat("foreign_trailing_chunks", (s.get("post") > 0) as u64);
        self.stat("foreign_fmt_not_first", (s.get("how") & 4 != 0) as u64);
        self.out.nontrivial = true;
        self.shape(s, mix2(s.get("pre") as u64, s.get("post") as u64));
        self.files.insert(
            s.get("f"),
            FileS { bytes: v.clone(), wav: true, ch, rate, level: 0, input: vec![], model, full: v, complete: true, damaged: false, acked: true, order: self.seq, declared: None },
        );
        Ok(())
    }

    // ------------------------------------------------------------------------------ storage damage

    fn damage(&mut self, s: &Step) -> R {
        if s.op == "garbage" {
            let mut r = Rng::new(s.get("seed") as u64);
            let n = s.get("len").clamp(0, 1 << 16) as usize;
            let style = s.get("how");
            let bytes: Vec<u8> = (0..n)
                .map(|_| match style {
                    0 => r.u64() as u8,
                    1 => 0,
                    2 => 0xff,
                    _ => r.pick(&[0u8, 0, 0, 1, 2, 0xff, 0x80]),
                })
                .collect();
            let wav = s.get("w") != 0;
            self.files.insert(
                s.get("f"),
                FileS { full: bytes.clone(), bytes, wav, ch: 1, rate: 1, level: 0, input: vec![], model: vec![], complete: false, damaged: true, acked: false, order: self.seq, declared: None },
            );
            self.stat("fault_garbage_file", 1);
            self.out.nontrivial = true;
            self.shape(s, n.min(64) as u64);
            return Ok(());
        }
        let Some(f) = self.files.get_mut(&s.get("f")) else { return Ok(()) };
        let len = f.bytes.len();
        if len == 0 {
            return Ok(());
        }
        let off = |k: &str| (s.get(k).max(0) as usize) % len;
        f.declared = None;
        match s.op {
            "cut" => {
                // keep: in 1/1000 of the file when kind=0, bytes from the start when 1, bytes off the end when 2
                let k = match s.get("kind") {
                    0 => (len as i128 * s.get("keep") as i128 / 1000) as usize,
                    1 => s.get("keep").max(0) as usize,
                    _ => len.saturating_sub(s.get("keep").max(1) as usize),
                };
                let k = k.min(len - 1);
                f.bytes.truncate(k);
                f.complete = false;
                f.acked = false;
            }
            "poke" => {
                let o = off("off");
                f.bytes[o] ^= (s.get("val") & 0xff) as u8;
                f.damaged = true;
            }
            "fill" => {
                let (o, n) = (off("off"), s.get("len").max(0) as usize);
                for b in f.bytes[o..].iter_mut().take(n) {
                    *b = s.get("val") as u8;
                }
                f.damaged = true;
            }
            "move" => {
                // a stale or misplaced sector: len bytes from off appear at to
                let (o, t, n) = (off("off"), off("to"), s.get("len").max(0) as usize);
                let src: Vec<u8> = f.bytes[o..].iter().copied().take(n).collect();
                for (i, b) in src.into_iter().enumerate() {
                    if t + i < len {
                        f.bytes[t + i] = b;
                    }
                }
                f.damaged = true;
            }
            "splice" => {
                // a stored list loses or gains elements and its stored length says so: every part of the file is
                // well formed by itself, the parts disagree with each other
                let Some(l) = Layout::of(&f.bytes) else { return Ok(()) };
                let (lo, size, n) = l.lists[s.get("x").clamp(0, 5) as usize];
                let at = (s.get("off").max(0) as usize) % (n + 1);
                let cut = (s.get("n").max(0) as usize).min(n - at);
                let add = s.get("len").clamp(0, 4096) as usize;
                let body = lo + 8;
                let mut new: Vec<u8> = (0..add * size).map(|i| (s.get("val") >> (8 * (i % size % 8))) as u8).collect();
                let tail = f.bytes.split_off(body + (at + cut) * size);
                f.bytes.truncate(body + at * size);
                f.bytes.append(&mut new);
                f.bytes.extend(tail);
                f.bytes[lo..lo + 8].copy_from_slice(&((n - cut + add) as u64).to_le_bytes());
                f.damaged = true;
            }
            "stretch" => {
                // the headers of a silent recording of any length; its audio lies behind the end of the stream
                let Some(l) = Layout::of(&f.bytes) else { return Ok(()) };
                let n = (s.get("n").clamp(1, 200_000) as usize).next_multiple_of(f.ch);
                let frames = s.get("len").clamp(3, 65535) as u16;
                let list = |e: &mut dyn FnMut(usize) -> Vec<u8>, count: usize| {
                    let mut v = (count as u64).to_le_bytes().to_vec();
                    (0..count).for_each(|i| v.extend(e(i)));
                    v
                };
                let mut v = f.bytes[..4].to_vec();
                v.extend(list(&mut |_| vec![0x11], n.div_ceil(2)));
                v.extend((n as u32).to_le_bytes());
                let ch = f.ch;
                v.extend(list(&mut |i| (0..64).map(|b| ((i * 64 + b < ch) as u64) << b).sum::<u64>().to_le_bytes().to_vec(), n.div_ceil(64)));
                v.extend((n as u128).to_le_bytes());
                v.extend(list(&mut |_| frames.to_le_bytes().to_vec(), n));
                v.extend(list(&mut |i| (i as u64 * 3 * frames as u64).to_le_bytes().to_vec(), n));
                v.extend(list(&mut |_| vec![0; 6], n));
                // the rest as it is: cursor, stream information, stream
                let (o, size, m) = l.lists[4];
                v.extend(&f.bytes[o + 8 + size * m..]);
                f.bytes = v;
                f.damaged = true;
                f.declared = Some(n as u64 / ch as u64 * frames as u64);
            }
            "number" => {
                let Some(l) = Layout::of(&f.bytes) else { return Ok(()) };
                let (o, w) = l.numbers[(s.get("x").max(0) as usize) % l.numbers.len()];
                let mut old = [0u8; 8];
                let w8 = w.min(8);
                old[..w8].copy_from_slice(&f.bytes[o..o + w8]);
                let v = if s.get("kind") == 0 { s.get("val") as u64 } else { u64::from_le_bytes(old).wrapping_add(s.get("val") as u64) };
                f.bytes[o..o + w8].copy_from_slice(&v.to_le_bytes()[..w8]);
                f.damaged = true;
            }
            _ => {
                // field: overwrite a whole little-endian field
                let o = off("off");
                let w = s.opt("w", 4).clamp(1, 8) as usize;
                for (i, b) in (s.get("val") as u64).to_le_bytes().iter().take(w).enumerate() {
                    if o + i < len {
                        f.bytes[o + i] = *b;
                    }
                }
                f.damaged = true;
            }
        }
        self.stat(&format!("fault_stored_{}", s.op), 1);
        self.out.nontrivial = true;
        self.shape(s, bucket(off("off") as i64));
        Ok(())
    }
}

/// where the parts of a stored AdhocCodec are, by the format's own length fields
struct Layout {
    /// offset of the length field, element size, elements
    lists: Vec<(usize, usize, usize)>,
    /// offset and width of the single numbers
    numbers: Vec<(usize, usize)>,
}
impl Layout {
    fn of(b: &[u8]) -> Option<Layout> {
        let mut l = Layout { lists: vec![], numbers: vec![] };
        let mut o = 0;
        fn list(l: &mut Layout, b: &[u8], o: &mut usize, size: usize) -> Option<()> {
            let n = u64::from_le_bytes(b.get(*o..*o + 8)?.try_into().ok()?);
            let n = usize::try_from(n).ok().filter(|n| *n <= b.len())?;
            b.get(*o..*o + 8 + n * size)?;
            l.lists.push((*o, size, n));
            *o += 8 + n * size;
            Some(())
        }
        fn number(l: &mut Layout, b: &[u8], o: &mut usize, w: usize) -> Option<()> {
            b.get(*o..*o + w)?;
            l.numbers.push((*o, w));
            *o += w;
            Some(())
        }
        number(&mut l, b, &mut o, 4)?; // level
        list(&mut l, b, &mut o, 1)?; // nibbles
        number(&mut l, b, &mut o, 4)?; // nibble count
        list(&mut l, b, &mut o, 8)?; // chunk starts
        number(&mut l, b, &mut o, 16)?;
        list(&mut l, b, &mut o, 2)?; // frame sizes
        list(&mut l, b, &mut o, 8)?; // bit cursors
        list(&mut l, b, &mut o, 6)?; // histories
        number(&mut l, b, &mut o, 4)?; // header cursor
        number(&mut l, b, &mut o, 1)?; // option tag
        number(&mut l, b, &mut o, 4)?; // rate
        number(&mut l, b, &mut o, 4)?; // channels
        list(&mut l, b, &mut o, 16)?; // residual bits
        number(&mut l, b, &mut o, 16)?;
        number(&mut l, b, &mut o, 16)?;
        Some(l)
    }
}
fn a_past(total: usize, rate: u32, ms: u64) -> bool {
    (rate as u128 * ms as u128) / 1000 >= total as u128
}

// ---------------------------------------------------------------------------------------------
// C16: the interleaved run against each codec alone

pub type Obs = Vec<(bool, u64)>;
/// one session of a plan, alone
pub fn solo_run(plan: &Plan, id: i64, no_observers: bool) -> Result<Obs, Viol> {
    let mut e = Exec::new("C16", false);
    e.only = Some(id);
    e.no_observers = no_observers;
    e.run(plan)?;
    Ok(e.obs.remove(&id).unwrap_or_default())
}

fn run_isolated(plan: &Plan, verbose: bool) -> Outcome {
    let mut main = Exec::new("C16", verbose);
    let r = main.run(plan);
    let obs = std::mem::take(&mut main.obs);
    let mut out = main.out;
    if let Err(v) = r {
        out.viol = Some((v.class, v.detail));
        return out;
    }
    let ids: Vec<i64> = obs.keys().copied().collect();
    let mut solos: Vec<(i64, Plan, Vec<(bool, u64)>)> = vec![];
    for id in ids {
        // another machine, another day
        seams::env::begin(mix2(plan.seed ^ 0x50_10, mix2(plan.index, id as u64)));
        // alone, on a fresh thread, without the thread moves
        let alone: Plan = Plan {
            steps: plan.steps.iter().filter(|s| s.op != "thread" && s.get("s") == id).cloned().collect(),
            ..Default::default()
        };
        let solo = |no_obs: bool, plan: &Plan| -> Result<Obs, Viol> {
            std::thread::scope(|sc| {
                sc.spawn(|| solo_run(plan, id, no_obs)).join().unwrap_or_else(|e| std::panic::resume_unwind(e))
            })
        };
        let s1 = match solo(false, &alone) {
            Ok(x) => x,
            Err(v) => {
                out.viol = Some((v.class, v.detail));
                return out;
            }
        };
        *out.stats.entry("solo_replays".into()).or_insert(0) += 1;
        if s1 != obs[&id] {
            let i = s1.iter().zip(&obs[&id]).position(|(a, b)| a != b).unwrap_or(s1.len().min(obs[&id].len()));
            out.viol = Some((
                "interference".into(),
                format!("codec {id}: observable result {i} of {} differs between the interleaved run and the codec driven alone", s1.len()),
            ));
            return out;
        }
        // and in a process that has never driven any other codec
        let sent = Plan { prop: "C16".into(), seed: plan.seed, index: plan.index, ..alone.clone() };
        match crate::zygote::solo(&sent, id, mix2(plan.seed ^ 0x27_90, mix2(plan.index, id as u64))) {
            Ok(x) if x == s1 => {}
            Ok(x) => {
                let i = s1.iter().zip(&x).position(|(a, b)| a != b).unwrap_or(s1.len().min(x.len()));
                out.viol = Some((
                    "interference-process".into(),
                    format!("codec {id}: observable result {i} of {} differs between this process and one that never drove another codec", s1.len()),
                ));
                return out;
            }
            Err(v) => {
                out.viol = Some((v.class, v.detail));
                return out;
            }
        }
        *out.stats.entry("pristine_process_replays".into()).or_insert(0) += 1;
        // and without the read-only observers: what they return aside, nothing changes
        let s2 = match solo(true, &alone) {
            Ok(x) => x,
            Err(v) => {
                out.viol = Some((v.class, v.detail));
                return out;
            }
        };
        *out.stats.entry("observer_free_replays".into()).or_insert(0) += 1;
        let s1k: Vec<_> = s1.iter().filter(|o| !o.0).copied().collect();
        if s1k != s2 {
            out.viol = Some((
                "observer-effect".into(),
                format!("codec {id}: saving or querying it changed what it produced afterwards"),
            ));
            return out;
        }
        solos.push((id, alone, s1));
    }
    for st in plan.steps.iter().filter(|s| s.op == "par") {
        if let Err(v) = run_preempted(st, &solos, &mut out) {
            out.viol = Some((v.class, v.detail));
            return out;
        }
    }
    out
}

/// every codec on a thread of its own, preempted inside the calls where the seed says so
fn run_preempted(st: &Step, solos: &[(i64, Plan, Vec<(bool, u64)>)], out: &mut Outcome) -> R {
    use seams::sched;
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            sched::leave();
        }
    }
    let n = solos.len().min(60);
    if n < 2 {
        return Ok(());
    }
    seams::env::begin(mix2(st.get("seed") as u64, 0x9a2));
    sched::begin(n, st.get("seed") as u64, st.opt("x", 14).max(1) as u64);
    let res: Vec<Result<Vec<(bool, u64)>, Viol>> = std::thread::scope(|sc| {
        let hs: Vec<_> = solos[..n]
            .iter()
            .enumerate()
            .map(|(i, (id, plan, _))| {
                sc.spawn(move || {
                    sched::enter(i as u32 + 1);
                    let _leave = Leave;
                    let mut e = Exec::new("C16", false);
                    e.only = Some(*id);
                    e.run(plan)?;
                    Ok(e.obs.remove(id).unwrap_or_default())
                })
            })
            .collect();
        sched::go();
        let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        rs.into_iter().map(|r| r.unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    out.trace = mix2(out.trace, sched::trace());
    let mut stat = |k: &str, v: u64| *out.stats.entry(k.into()).or_insert(0) += v;
    stat("preemptive_replays", 1);
    stat("preemptions", sched::SWITCHES.load(std::sync::atomic::Ordering::SeqCst));
    stat("preemption_points", sched::POINTS.load(std::sync::atomic::Ordering::SeqCst));
    for (r, (id, _, s1)) in res.into_iter().zip(solos) {
        let o = r?;
        if &o != s1 {
            let i = s1.iter().zip(&o).position(|(a, b)| a != b).unwrap_or(s1.len().min(o.len()));
            return Err(Viol {
                class: "interference-preempted".into(),
                detail: format!("codec {id}: observable result {i} of {} differs when other codecs run on other threads at the same time", s1.len()),
            });
        }
    }
    Ok(())
}

/// catches panics of the code under test
pub fn execute(plan: &Plan, verbose: bool) -> Outcome {
    // a history: several executions in one process, the first violation counts
    if plan.steps.iter().any(|s| s.op == "next") {
        let mut all = Outcome::default();
        let mut nexts = plan.steps.iter().filter(|s| s.op == "next");
        for part in plan.steps.split(|s| s.op == "next") {
            // a separator carries the index of the execution before it
            let index = nexts.next().map(|s| s.get("x") as u64).unwrap_or(plan.index);
            let p = Plan { steps: part.to_vec(), prop: plan.prop.clone(), seed: plan.seed, index, notes: vec![] };
            crate::RUN_NO.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let o = execute(&p, verbose);
            all.trace = mix2(all.trace, o.trace);
            all.log.extend(o.log);
            if o.viol.is_some() {
                all.viol = o.viol;
                break;
            }
        }
        return all;
    }
    let sim = !matches!(plan.prop.as_str(), "C14" | "C15" | "C20");
    if sim {
        seams::env::begin(mix2(plan.seed, plan.index));
    }
    let o = execute_one(plan, verbose);
    seams::env::end();
    o
}
fn execute_one(plan: &Plan, verbose: bool) -> Outcome {
    seams::alloc::unlimited();
    crate::take_panic();
    let p = plan.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match p.prop.as_str() {
        "C16" => run_isolated(&p, verbose),
        "C19" => crate::skew::run(&p, verbose),
        "C21" => crate::econ::cost(&p, verbose),
        "C22" => crate::econ::size(&p, verbose),
        "C23" => crate::cycle::run(&p, verbose),
        #[cfg(feature = "frames")]
        "C24" => crate::frames::run(&p, verbose),
        "C14" | "C15" | "C20" => crate::cli::run(&p, verbose),
        "C25" => crate::arch::run(&p, verbose),
        "C26" => crate::big::run(&p, verbose),
        prop => {
            let mut e = Exec::new(prop, verbose);
            let r = e.run(&p);
            let mut out = std::mem::take(&mut e.out);
            if let Err(v) = r {
                out.viol = Some((v.class, v.detail));
            }
            out
        }
    }));
    seams::alloc::unlimited();
    match r {
        Ok(o) => o,
        Err(_) => {
            let (loc, msg) = crate::take_panic().unwrap_or_default();
            Outcome { viol: Some((format!("panic@{loc}"), msg)), nontrivial: true, ..Default::default() }
        }
    }
}

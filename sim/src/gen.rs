//! Scenario generators.  Each is a small discrete-event simulation: actors (microphone, player, user, autosave
//! timer, disk, crash) act on a simulated clock; the merged, timestamped history is the plan.
use crate::io;
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix2, Rng};
use crate::sig;

pub struct G {
    pub r: Rng,
    /// simulated microseconds
    pub t: u64,
    pub out: Vec<Step>,
}
type Kv<'a> = &'a [(&'static str, i64)];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ch: i64,
    pub rate: i64,
    pub level: i64,
}
/// frame index at which each chunk of the last recording starts, and its length
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub starts: Vec<i64>,
    pub frames: i64,
}

impl G {
    pub fn emit(&mut self, op: &'static str, kv: Kv) {
        let s = Step::new(self.t, op, kv);
        self.out.push(s);
    }
    fn emit_v(&mut self, op: &'static str, kv: Vec<(&'static str, i64)>) {
        let s = Step::new(self.t, op, &kv);
        self.out.push(s);
    }
    fn seed(&mut self) -> i64 {
        (self.r.u64() >> 34) as i64
    }
    pub fn cfg(&mut self) -> Cfg {
        let r = &mut self.r;
        let ch = match r.below(100) {
            0..=39 => r.range(1, 2),
            40..=79 => r.range(1, 8),
            80..=94 => r.range(3, 17),
            95..=98 => r.range(9, 66),
            _ if r.chance(0.8) => r.log(60, 400),
            _ if r.chance(0.5) => r.pick(&[255, 256, 257, 511, 512, 1024, 4096, 16_384, 32_767, 32_768, 65_534, 65_535]),
            _ => r.log(400, 65_535),
        };
        let rate = match r.below(100) {
            0..=54 => r.pick(&[8000, 11025, 16000, 22050, 44100, 48000, 96000]),
            55..=69 => r.pick(&[1, 999, 1000, 1001, 5512, 192000, 384000]),
            70..=89 => r.range(1000, 100_000),
            90..=96 => r.log(1, 4_000_000_000),
            97 => 0,
            98 => u32::MAX as i64,
            _ => i32::MAX as i64,
        };
        let level = match r.below(100) {
            0..=29 => 0,
            30..=93 => r.range(0, 10),
            94..=96 => r.range(11, 40),
            _ => u32::MAX as i64,
        };
        Cfg { ch, rate, level }
    }
    fn sigkind(&mut self) -> (i64, i64) {
        let k = self.r.range(0, sig::NKINDS - 1);
        let amp = match self.r.below(6) {
            0..=2 => 1_000_000,
            3 => self.r.range(0, 1_000_000),
            4 => self.r.range(0, 30_000),
            _ => self.r.range(0, 200),
        };
        (k, amp)
    }
    /// chunk sizes of one recording, at most about `budget` frames
    pub fn chunks(&mut self, budget: i64, rare_giant: f64) -> Vec<i64> {
        let r = &mut self.r;
        let mut v: Vec<i64> = vec![];
        let mut left = r.log(1, budget.max(2));
        if r.chance(0.02) {
            // nothing, or only underruns
            return (0..r.range(0, 25)).map(|_| 0).collect();
        }
        if r.chance(rare_giant) && r.chance(0.2) {
            // hours of tiny deliveries: tens of thousands of headers
            let most = r.range(1, 3);
            let n = if r.chance(0.5) { r.log(2000, 70_000) } else { r.range(66_000, 70_000) };
            let least = r.range(0, 1);
            return (0..n).map(|_| r.range(least, most)).collect();
        }
        if r.chance(rare_giant) {
            let n = match r.below(5) {
                0 => r.range(65_530, 65_545),
                1 => r.range(131_060, 131_080),
                2 => r.range(65_536, 140_000),
                3 => r.pick(&[65_535, 65_536, 65_537, 65_538, 65_539, 131_070, 131_071, 131_072, 131_074, 196_608]),
                _ => r.range(40_000, 70_000),
            };
            if r.chance(0.4) {
                v.push(r.log(1, 3000));
            }
            v.push(n);
            if r.chance(0.6) {
                v.push(r.log(1, 3000));
            }
            return v;
        }
        let style = r.below(12);
        let fixed = r.pick(&[1, 2, 3, 4, 64, 128, 256, 441, 480, 512, 960, 1024, 2048, 4096]);
        let mut n = 0;
        let max_chunks = match style {
            2 | 8 | 9 => r.log(20, 700),
            _ => r.log(2, 60),
        };
        while left > 0 && n < max_chunks {
            let c = match style {
                0 => fixed,
                1 => {
                    // callback with jitter
                    let b = r.pick(&[128, 256, 480, 1024]);
                    r.range(b / 2, b * 2)
                }
                2 => r.range(1, 3),
                3 => {
                    // bursts and underruns
                    match r.below(4) {
                        0 => 0,
                        1 => r.range(1, 5),
                        2 => r.log(1, 400),
                        _ => r.log(200, 5000),
                    }
                }
                4 => {
                    // long underrun, then audio
                    if n > 0 && r.chance(0.3) {
                        for _ in 0..r.range(9, 40) {
                            v.push(0);
                        }
                    }
                    r.log(1, 600)
                }
                5 => left,
                6 => (1i64 << r.range(0, 13)) + r.range(-1, 1),
                7 => r.log(1, left.max(2)),
                8 => r.range(1, 12),
                9 => r.log(1, 20),
                10 => r.range(0, 4),
                _ => r.log(1, 3000),
            };
            let c = c.clamp(0, left.max(1));
            v.push(c);
            left -= c;
            n += 1;
        }
        if r.chance(0.1) {
            let k = r.range(1, 14);
            let at = r.below(v.len() as u64 + 1) as usize;
            for _ in 0..k {
                v.insert(at, 0);
            }
        }
        v
    }
    fn gap(&mut self, rate: i64, n: i64) {
        // the microphone delivers when it has recorded the frames, plus jitter
        let dur = (n as i128 * 1_000_000 / rate.max(1) as i128).min(60_000_000) as u64;
        let jit = self.r.below(dur / 4 + 200);
        self.t += dur + jit;
    }
    /// emits one chunk of a recording
    fn enc(&mut self, op: &'static str, s: i64, c: &Cfg, n: i64, base: (i64, i64)) {
        let (mut k, mut amp) = base;
        if self.r.chance(0.15) {
            (k, amp) = self.sigkind();
        }
        let x = if c.ch > 1 && self.r.chance(0.08) { self.r.range(1, c.ch - 1) } else { 0 };
        let seed = self.seed();
        let mut kv = vec![("s", s), ("n", n), ("sig", k), ("seed", seed)];
        if amp != 1_000_000 {
            kv.push(("amp", amp));
        }
        if x > 0 {
            kv.push(("x", x));
        }
        self.gap(c.rate, n);
        self.emit_v(op, kv);
    }
    fn new_session(&mut self, s: i64, c: &Cfg) {
        let how = if self.r.chance(0.5) { 0 } else { self.r.range(0, 3) };
        self.emit("new", &[("s", s), ("ch", c.ch), ("rate", c.rate), ("level", c.level), ("how", how)]);
    }
    fn record(&mut self, s: i64, c: &Cfg, budget: i64, giant: f64) -> Rec {
        let chunks = self.chunks(budget / c.ch.max(1), if c.ch < 3 { giant } else { 0.0 });
        self.record_chunks("enc", s, c, &chunks)
    }
    fn record_chunks(&mut self, op: &'static str, s: i64, c: &Cfg, chunks: &[i64]) -> Rec {
        let base = self.sigkind();
        let mut rec = Rec::default();
        for &n in chunks {
            self.enc(op, s, c, n, base);
            rec.starts.push(rec.frames);
            rec.frames += n;
        }
        rec
    }
    /// maybe the codec recorded and played before
    fn used_before(&mut self, s: i64, c: &mut Cfg, chance: f64) -> Option<Vec<(&'static str, i64)>> {
        if !self.r.chance(chance) {
            return None;
        }
        for _ in 0..self.r.range(1, 2) {
            self.record(s, c, 4000, 0.0);
            if self.r.chance(0.5) {
                self.emit("rewind", &[("s", s), ("how", 0)]);
                let b = self.pull_size(c.ch).min(4000);
                self.emit("dec", &[("s", s), ("buf", b)]);
            }
            let how = self.r.range(0, 1);
            self.emit("rewind", &[("s", s), ("how", how)]);
        }
        Some(self.reform(c, 0.4))
    }
    fn first_chunk(&mut self, at: usize, kv: Vec<(&'static str, i64)>) {
        if let Some(s) = self.out[at..].iter_mut().find(|s| s.op == "enc" && s.get("n") > 0) {
            s.kv.extend(kv);
        }
    }
    /// another format for the next recording of a codec: what its first chunk has to say
    fn reform(&mut self, c: &mut Cfg, chance: f64) -> Vec<(&'static str, i64)> {
        if !self.r.chance(chance) {
            return vec![];
        }
        let n = self.cfg();
        let mut kv = vec![("kind", self.r.range(0, 1))];
        let what = self.r.pick(&[1, 1, 2, 2, 3, 4, 5, 7]);
        if what & 1 != 0 {
            c.ch = if self.r.chance(0.5) { n.ch } else { (c.ch + self.r.pick(&[-1, 1, 2])).clamp(1, 65535) };
            kv.push(("ch", c.ch));
        }
        if what & 2 != 0 {
            c.level = n.level;
            kv.push(("level", c.level));
        }
        if what & 4 != 0 {
            c.rate = n.rate;
            kv.push(("rate", c.rate));
        }
        kv
    }
    fn drain_kv(&mut self, s: i64, ch: i64) -> Vec<(&'static str, i64)> {
        let (lo, hi) = match self.r.below(6) {
            0 => (1024, 1024),
            1 => {
                let b = self.r.log(1, 5000);
                (b, b)
            }
            2 => (ch, 3 * ch),
            3 => (ch, 64 * ch + 7),
            4 => (1, 4000),
            _ => (1 << 20, 1 << 20),
        };
        let seed = self.seed();
        vec![("s", s), ("lo", lo.max(ch)), ("hi", hi.max(ch)), ("seed", seed)]
    }
    fn drain(&mut self, op: &'static str, s: i64, ch: i64) {
        self.t += 1000;
        let kv = self.drain_kv(s, ch);
        self.emit_v(op, kv);
    }
    /// short transfers and interruptions only
    fn benign_io(&mut self, kv: &mut Vec<(&'static str, i64)>) {
        let seed = self.seed();
        kv.push(("ios", seed));
        match self.r.below(4) {
            0 => {
                let p = self.r.range(1, 100);
                kv.push(("short", p));
            }
            1 => {
                let p = self.r.range(1, 60);
                kv.push(("intr", p));
            }
            2 => {
                let (a, b) = (self.r.range(1, 100), self.r.range(1, 60));
                kv.push(("short", a));
                kv.push(("intr", b));
            }
            _ => {}
        }
    }
    fn pull_size(&mut self, ch: i64) -> i64 {
        match self.r.below(12) {
            0 => self.r.range(0, ch - 1),
            1 => ch,
            2 => ch + self.r.range(0, ch),
            3 => self.r.range(1, 5) * ch,
            4 => 0,
            5 => 1024,
            6 => self.r.log(1, 20_000),
            7 => self.r.log(1, 300),
            8 => ch * self.r.log(1, 70),
            9 => ch * (1 << self.r.range(0, 9)) + self.r.range(-1, 1),
            _ => self.r.log(1, 3000),
        }
        .max(0)
    }
    fn seek_ms(&mut self, c: &Cfg, rec: &Rec) -> i64 {
        let to_ms = |f: i64| if c.rate == 0 { f } else { (f as i128 * 1000 / c.rate as i128) as i64 };
        let end = to_ms(rec.frames);
        match self.r.below(14) {
            0 => 0,
            1 => end + self.r.range(-2, 2),
            2 => end + self.r.log(1, 100_000),
            3 => self.r.pick(&[i64::MAX, -1, 1 << 40, u32::MAX as i64, 1 << 53, i64::MIN]),
            4 if !rec.starts.is_empty() => {
                // where the number of headers passes a power of two
                let mut at: Vec<i64> = rec.starts.clone();
                at.dedup();
                let top = 63 - (at.len() as u64 * c.ch as u64).leading_zeros() as i64;
                let k = if self.r.chance(0.5) { top } else { self.r.range(0, top) };
                let i = ((1 << k) / c.ch + self.r.range(-1, 1)).clamp(0, at.len() as i64 - 1);
                to_ms(at[i as usize] + self.r.range(0, 2))
            }
            5..=8 if !rec.starts.is_empty() => {
                let f = rec.starts[self.r.below(rec.starts.len() as u64) as usize];
                to_ms(f + self.r.range(-2, 2)) + self.r.range(-1, 1)
            }
            _ => self.r.range(0, end.max(1)),
        }
        .max(if self.r.chance(0.05) { i64::MIN } else { 0 })
    }
}

fn quiet_save(g: &mut G, s: i64, f: i64) {
    g.t += 500;
    g.emit("save", &[("s", s), ("f", f)]);
}
fn quiet_load(g: &mut G, s: i64, f: i64) {
    g.t += 500;
    g.emit("load", &[("s", s), ("f", f)]);
}

// ------------------------------------------------------------------------------------------ properties

/// C01, C02: recorder -> file -> player
fn gen_roundtrip(g: &mut G, prop: &str) {
    let mut c = g.cfg();
    if prop == "C01" && g.r.chance(0.004) {
        c.ch = g.r.pick(&[255, 256, 257, 1023, 1024, 4096, 65535, 65534, 32768, 65536, 65537, 70_000]);
        c.rate = 8000;
        g.new_session(1, &c);
        let n = g.r.range(1, 5);
        for _ in 0..n {
            let k = g.r.range((c.ch > 65535) as i64, 4);
            g.enc("enc", 1, &c, k, (4, 1_000_000));
        }
        quiet_save(g, 1, 1);
        quiet_load(g, 2, 1);
        g.drain("drain", 2, c.ch);
        return;
    }
    g.new_session(1, &c);
    let budget = if g.r.chance(0.03) { 250_000 } else { 24_000 };
    let rec = g.record(1, &c, budget, 0.012);
    if g.r.chance(0.3) {
        g.emit("rewind", &[("s", 1), ("how", 0)]);
        g.drain("drain", 1, c.ch);
        if g.r.chance(0.5) {
            g.emit("rewind", &[("s", 1), ("how", 1)]);
        }
    }
    quiet_save(g, 1, 1);
    quiet_load(g, 2, 1);
    g.emit("info", &[("s", 2)]);
    g.drain("drain", 2, c.ch);
    if g.r.chance(0.15) {
        // second generation: save what was loaded
        quiet_save(g, 2, 2);
        quiet_load(g, 3, 2);
        g.drain("drain", 3, c.ch);
    }
    let _ = rec;
}

/// C03: the player's pull schedule
fn gen_pull(g: &mut G) {
    let mut c = g.cfg();
    g.new_session(1, &c);
    let other = g.used_before(1, &mut c, 0.05).unwrap_or_default();
    let at = g.out.len();
    let rec = g.record(1, &c, 12_000, 0.004);
    g.first_chunk(at, other);
    let s = if g.r.chance(0.6) {
        quiet_save(g, 1, 1);
        quiet_load(g, 2, 1);
        2
    } else {
        g.emit("rewind", &[("s", 1), ("how", 0)]);
        1
    };
    for _ in 0..g.r.range(1, 3) {
        let mut left = (rec.frames * c.ch) as f64 * (0.2 + 1.2 * g.r.unit());
        let mut n = 0;
        while left > 0.0 && n < 60 {
            let b = g.pull_size(c.ch);
            g.t += 1 + g.r.below(20_000);
            g.emit("dec", &[("s", s), ("buf", b)]);
            left -= b as f64 + 1.0;
            n += 1;
        }
        if g.r.chance(0.6) {
            g.drain("drain", s, c.ch);
            for _ in 0..g.r.range(0, 2) {
                let b = g.pull_size(c.ch);
                g.emit("dec", &[("s", s), ("buf", b)]);
            }
        }
        let how = (g.r.below(5) == 0) as i64;
        g.emit("rewind", &[("s", s), ("how", how)]);
    }
    if g.r.chance(0.5) {
        g.drain("drain", s, c.ch);
    }
}

/// C04: player and user
fn gen_seek(g: &mut G) {
    let mut c = g.cfg();
    if g.r.chance(0.5) {
        // rates at which milliseconds resolve frames finely
        c.rate = g.r.pick(&[1000, 2000, 3000, 999, 500, 8000, 1, 100]);
    }
    g.new_session(1, &c);
    let other = g.used_before(1, &mut c, 0.1).unwrap_or_default();
    let at = g.out.len();
    let rec = if c.ch < 64 && g.r.chance(0.002) {
        // just more than 2^16 headers
        let most = g.r.range(1, 3);
        let n = 65_536 / c.ch + g.r.range(1, 300);
        let chunks: Vec<i64> = (0..n).map(|_| g.r.range(1, most)).collect();
        g.record_chunks("enc", 1, &c, &chunks)
    } else {
        g.record(1, &c, 10_000, 0.004)
    };
    g.first_chunk(at, other);
    let s = match g.r.below(3) {
        0 => 1,
        _ => {
            quiet_save(g, 1, 1);
            quiet_load(g, 2, 1);
            2
        }
    };
    if s == 1 {
        let ms = g.seek_ms(&c, &rec);
        g.emit("seek", &[("s", s), ("ms", ms)]);
    }
    for _ in 0..g.r.range(2, 14) {
        g.t += g.r.below(3_000_000);
        match g.r.below(10) {
            0..=4 => {
                let ms = g.seek_ms(&c, &rec);
                g.emit("seek", &[("s", s), ("ms", ms)]);
                if g.r.chance(0.7) {
                    let b = g.pull_size(c.ch);
                    g.emit("dec", &[("s", s), ("buf", b)]);
                }
            }
            5..=8 => {
                let b = g.pull_size(c.ch);
                g.emit("dec", &[("s", s), ("buf", b)]);
            }
            _ => g.drain("drain", s, c.ch),
        }
    }
    g.drain("drain", s, c.ch);
}

/// C05: one codec, several recordings
fn gen_reuse(g: &mut G) {
    let mut c = g.cfg();
    g.new_session(1, &c);
    let big = g.r.log(50, 20_000);
    for i in 0..g.r.range(2, 5) {
        let other = if i > 0 { g.reform(&mut c, 0.3) } else { vec![] };
        let budget = match g.r.below(4) {
            0 => big,
            1 => g.r.log(1, 400),
            2 => g.r.log(1, 20_000),
            _ => big / 2 + 1,
        };
        let mut ch = g.chunks(budget / c.ch.max(1), if c.ch < 3 { 0.002 } else { 0.0 });
        while ch.first() == Some(&0) {
            ch.remove(0);
        }
        if ch.is_empty() && i > 0 {
            ch.push(1);
        }
        if g.r.chance(0.4) {
            // same schedule, other audio: headers and bits are overwritten in place
            let keep: Vec<i64> = g.out.iter().rev().filter(|s| s.op == "enc").map(|s| s.get("n")).take(30).collect();
            if !keep.is_empty() && keep[0] > 0 {
                ch = keep;
                if c.ch > 400 {
                    ch.iter_mut().for_each(|n| *n = (*n).min(1 + 20_000 / c.ch));
                }
            }
        }
        let at = g.out.len();
        g.record_chunks("enc", 1, &c, &ch);
        g.first_chunk(at, other);
        for _ in 0..g.r.range(1, 3) {
            match g.r.below(5) {
                0 => {
                    let op = g.r.pick(&["count", "info"]);
                    g.emit(op, &[("s", 1)])
                }
                1 => {
                    quiet_save(g, 1, 1);
                    quiet_load(g, 2, 1);
                    g.emit("count", &[("s", 2)]);
                    g.drain("drain", 2, c.ch);
                }
                _ => {
                    let how = g.r.range(0, 1);
                    g.emit("rewind", &[("s", 1), ("how", how)]);
                    if g.r.chance(0.3) {
                        let b = g.pull_size(c.ch);
                        g.emit("dec", &[("s", 1), ("buf", b)]);
                        g.emit("rewind", &[("s", 1), ("how", how)]);
                    }
                    if g.r.chance(0.1) {
                        let ms = g.r.range(0, 300);
                        g.emit("seek", &[("s", 1), ("ms", ms)]);
                        g.emit("rewind", &[("s", 1), ("how", how)]);
                    }
                    g.drain("drain", 1, c.ch);
                }
            }
        }
        let how = g.r.range(0, 1);
        g.emit("rewind", &[("s", 1), ("how", how)]);
        if g.r.chance(0.2) {
            // a recording that went through a file is reused as well
            quiet_save(g, 1, 1);
            quiet_load(g, 1, 1);
            let how = g.r.range(0, 1);
            g.emit("rewind", &[("s", 1), ("how", how)]);
        }
    }
    g.drain("drain", 1, c.ch);
    quiet_save(g, 1, 2);
    quiet_load(g, 2, 2);
    g.emit("count", &[("s", 2)]);
    g.drain("drain", 2, c.ch);
}

fn wav_cfg(g: &mut G) -> Cfg {
    let mut c = g.cfg();
    if g.r.chance(0.01) {
        c.ch = g.r.pick(&[4096, 16384, 32767, 32768, 65535]);
    }
    c
}
fn wnew(g: &mut G, s: i64, c: &Cfg) {
    g.emit("wnew", &[("s", s), ("ch", c.ch), ("rate", c.rate)]);
}
fn wrecord(g: &mut G, s: i64, c: &Cfg, budget: i64) -> Rec {
    let ch = if c.ch > 1000 {
        (0..g.r.range(0, 3)).map(|_| g.r.range(0, 3)).collect()
    } else {
        g.chunks(budget / c.ch.max(1), if c.ch <= 2 { 0.003 } else { 0.0 })
    };
    g.record_chunks("wenc", s, c, &ch)
}

/// C06, C07: a disk with faults
fn gen_io(g: &mut G, prop: &str) {
    let wav = g.r.chance(0.4);
    let c = if wav { wav_cfg(g) } else { g.cfg() };
    let budget = if g.r.chance(0.05) { 8000 } else { 1200 };
    if wav {
        wnew(g, 1, &c);
        wrecord(g, 1, &c, budget);
    } else {
        g.new_session(1, &c);
        g.record(1, &c, budget, 0.0);
        if g.r.chance(0.1) {
            g.emit("rewind", &[("s", 1), ("how", 0)]);
        }
    }
    if prop == "C07" {
        g.emit(if wav { "wsave" } else { "save" }, &[("s", 1), ("f", 1)]);
    }
    for _ in 0..g.r.range(2, 10) {
        g.t += g.r.below(100_000);
        let mut kv = vec![("s", if prop == "C06" { 1 } else { 2 }), ("f", 1)];
        g.benign_io(&mut kv);
        if g.r.chance(0.5) {
            // where the medium fails: near the ends, in the header, anywhere (in bytes or in 1/1000 of the file)
            let k = g.r.range(0, io::NKINDS - 1);
            kv.push(("kind", k));
            match g.r.below(4) {
                0 => {
                    let o = g.r.range(0, 64);
                    kv.push(("fail", o));
                }
                1 => {
                    let o = g.r.log(1, 6000);
                    kv.push(("fail", o));
                }
                _ if prop == "C06" => {
                    let p = if g.r.chance(0.3) { g.r.range(980, 1000) } else { g.r.range(0, 1000) };
                    kv.push(("fail", 0));
                    kv.push(("keep", p));
                }
                _ => {
                    let o = g.r.range(0, 600);
                    kv.push(("fail", o));
                }
            }
            if g.r.chance(0.3) {
                kv.push(("once", 1));
            }
        } else if prop == "C07" && g.r.chance(0.15) {
            let n = g.r.range(1, 3);
            kv.push(("sfail", n));
        }
        if prop == "C06" {
            if g.r.chance(0.3) {
                let b = g.r.pick(&[0, 1, 16, 100, 4096, 1 << 20, 1 << 30]);
                kv.push(("cap", b));
            }
            kv.push(("len", 1));
            g.emit_v(if wav { "wsave" } else { "save" }, kv);
        } else {
            if g.r.chance(0.5) {
                let b = g.r.pick(&[1, 2, 3, 7, 8, 16, 43, 44, 45, 100, 255, 256, 4096]);
                kv.push(("cap", b));
            }
            if !wav && g.r.chance(0.5) {
                let n = g.r.pick(&[1, 3, 8, 16, 100]);
                kv.push(("trail", n));
            }
            g.emit_v(if wav { "wload" } else { "load" }, kv);
            if g.r.chance(0.2) {
                g.drain(if wav { "wdrain" } else { "drain" }, 2, c.ch);
            }
        }
    }
}

/// C08: crash during a save
fn gen_torn(g: &mut G) {
    let wav = g.r.chance(0.45);
    let c = if wav { wav_cfg(g) } else { g.cfg() };
    if wav {
        wnew(g, 1, &c);
        wrecord(g, 1, &c, 800);
    } else {
        g.new_session(1, &c);
        g.record(1, &c, 2000, 0.0);
    }
    if !wav && g.r.chance(0.2) {
        let how = g.r.range(0, 1);
        g.emit("rewind", &[("s", 1), ("how", how)]);
        if g.r.chance(0.5) {
            g.record(1, &c, 300, 0.0);
        }
    }
    for _ in 0..g.r.range(4, 24) {
        g.t += 10_000;
        g.emit(if wav { "wsave" } else { "save" }, &[("s", 1), ("f", 1)]);
        match g.r.below(5) {
            0 => {
                let k = g.r.range(1, 140);
                g.emit("cut", &[("f", 1), ("kind", 2), ("keep", k)]);
            }
            1 => {
                let k = g.r.range(0, 140);
                g.emit("cut", &[("f", 1), ("kind", 1), ("keep", k)]);
            }
            2 => {
                let k = g.r.log(1, 3000);
                g.emit("cut", &[("f", 1), ("kind", 1), ("keep", k)]);
            }
            _ => {
                let k = g.r.range(0, 999);
                g.emit("cut", &[("f", 1), ("kind", 0), ("keep", k)]);
            }
        }
        g.emit(if wav { "wload" } else { "load" }, &[("s", 2), ("f", 1)]);
    }
}

/// byte offsets of the fields of a stored AdhocCodec with `h` headers and `chunks` 128-bit chunks
fn adhoc_fields(h: i64) -> Vec<(i64, i64)> {
    let mut v = vec![(0, 4)]; // level
    let mut o = 4;
    let nb = (h + 1) / 2;
    v.push((o, 8)); // nibble data len
    o += 8;
    v.push((o, 1));
    v.push((o + nb / 2, 1));
    o += nb;
    v.push((o, 4)); // nibble count
    o += 4;
    let w = (h + 63) / 64;
    v.push((o, 8)); // bitvec len
    o += 8;
    v.push((o, 8));
    o += 8 * w;
    v.push((o, 8)); // bitvec cursor
    v.push((o + 8, 8));
    o += 16;
    v.push((o, 8)); // frame sizes
    o += 8;
    for k in 0..h.min(4) {
        v.push((o + 2 * k, 2));
    }
    v.push((o + 2 * (h - 1).max(0), 2));
    o += 2 * h;
    v.push((o, 8)); // cursors
    o += 8;
    for k in 0..h.min(4) {
        v.push((o + 8 * k, 8));
    }
    v.push((o + 8 * (h - 1).max(0), 8));
    o += 8 * h;
    v.push((o, 8)); // history
    o += 8;
    v.push((o, 2));
    v.push((o + 2, 2));
    o += 6 * h;
    v.push((o, 4)); // header cursor
    o += 4;
    v.push((o, 1)); // option tag
    v.push((o + 1, 4)); // rate
    v.push((o + 5, 4)); // channels
    v.push((o + 1, 8));
    v.push((o + 9, 8)); // binary len
    v.push((o + 17, 8));
    v
}
const WILD: [i64; 30] = [
    0, 1, 2, 3, 4, 5, 7, 8, 10, 11, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff,
    0x8000_0000, 0xffff_ffff, 0x1_0000_0000, i64::MAX, i64::MIN, -1,
];

/// C09: a recording on a rotten disk, opened by an application that then does whatever it likes
fn gen_corrupt(g: &mut G) {
    let mut c = g.cfg();
    c.ch = c.ch.min(20);
    g.new_session(1, &c);
    if g.r.chance(0.004) {
        // more frames than 32 bits count
        g.emit("enc", &[("s", 1), ("n", 4), ("sig", 0)]);
        g.emit("save", &[("s", 1), ("f", 1)]);
        let n = g.r.pick(&[65535, 65536, 65600, 66000, 100_000]);
        g.emit("stretch", &[("f", 1), ("n", n), ("len", 65535)]);
        g.emit("load", &[("s", 2), ("f", 1)]);
        for _ in 0..g.r.range(1, 6) {
            match g.r.below(5) {
                0 => {
                    let b = g.r.range(1, 4000);
                    g.emit("dec", &[("s", 2), ("buf", b)]);
                }
                1 => {
                    let ms = g.r.log(1, 1 << 40);
                    g.emit("seek", &[("s", 2), ("ms", ms)]);
                }
                2 => g.emit("bound", &[("s", 2)]),
                3 => g.emit("save", &[("s", 2), ("f", 3)]),
                _ => g.emit("rewind", &[("s", 2), ("how", 0)]),
            }
            g.emit("count", &[("s", 2)]);
        }
        return;
    }
    let size = if g.r.chance(0.2) { 1500 } else { 250 };
    let mut ch = g.chunks(size / c.ch + 1, 0.0);
    ch.truncate(40);
    g.record_chunks("enc", 1, &c, &ch);
    let headers = ch.iter().filter(|n| **n > 0).count() as i64 * c.ch;
    let fields = adhoc_fields(headers);
    for round in 0..g.r.range(1, 8) {
        g.t += 1_000_000;
        if g.r.chance(0.07) {
            let (n, how, seed) = (g.r.log(1, 700), g.r.range(0, 3), g.seed());
            g.emit("garbage", &[("f", 1), ("len", n), ("how", how), ("seed", seed)]);
        } else {
            g.emit("save", &[("s", 1), ("f", 1), ("len", 1)]);
            for _ in 0..g.r.range(1, 4) {
                match g.r.below(20) {
                    12..=16 => {
                        let x = g.r.range(0, 5);
                        let at = if g.r.chance(0.5) { g.r.log(0, 6000) } else { headers };
                        let (n, len) = match g.r.below(4) {
                            0 => (g.r.log(1, 8), 0),
                            1 => (g.r.log(1, 6000), 0),
                            2 => (0, g.r.log(1, 64)),
                            _ => (g.r.log(1, 64), g.r.log(1, 64)),
                        };
                        let v = if g.r.chance(0.5) { g.r.pick(&WILD) } else { g.r.u64() as i64 };
                        g.emit("splice", &[("f", 1), ("x", x), ("off", at), ("n", n), ("len", len), ("val", v)]);
                    }
                    17..=19 => {
                        let (x, k) = (g.r.range(0, 8), g.r.range(0, 1));
                        let v = if k == 1 { g.r.range(-4, 4) } else { g.r.pick(&WILD) };
                        g.emit("number", &[("f", 1), ("x", x), ("kind", k), ("val", v)]);
                    }
                    0..=5 => {
                        let (o, w) = fields[g.r.below(fields.len() as u64) as usize];
                        let v = match g.r.below(5) {
                            0 => g.r.range(0, 300),
                            1 => g.r.u64() as i64,
                            2 => headers + g.r.range(-3, 3),
                            _ => g.r.pick(&WILD),
                        };
                        g.emit("field", &[("f", 1), ("off", o), ("w", w), ("val", v)]);
                    }
                    6..=7 => {
                        let (o, v) = (g.r.range(0, 6000), g.r.range(1, 255));
                        g.emit("poke", &[("f", 1), ("off", o), ("val", v)]);
                    }
                    8 => {
                        let (o, v) = (g.r.range(0, 6000), 1 << g.r.range(0, 7));
                        g.emit("poke", &[("f", 1), ("off", o), ("val", v)]);
                    }
                    9 => {
                        let (o, n, v) = (g.r.range(0, 6000), g.r.log(1, 600), g.r.pick(&[0, 255, 1, 0x55]));
                        g.emit("fill", &[("f", 1), ("off", o), ("len", n), ("val", v)]);
                    }
                    10 => {
                        let (o, t, n) = (g.r.range(0, 6000), g.r.range(0, 6000), g.r.log(1, 600));
                        g.emit("move", &[("f", 1), ("off", o), ("to", t), ("len", n)]);
                    }
                    _ => {
                        let k = g.r.range(0, 999);
                        g.emit("cut", &[("f", 1), ("kind", 0), ("keep", k)]);
                        g.emit("poke", &[("f", 1), ("off", 0), ("val", 0)]);
                    }
                }
            }
        }
        let s = 2 + round;
        quiet_load(g, s, 1);
        let order = g.r.range(1, 7);
        for _ in 0..order {
            match g.r.below(10) {
                0 => g.emit("info", &[("s", s)]),
                1 => g.emit("count", &[("s", s)]),
                2 => g.emit("bound", &[("s", s)]),
                3 => {
                    let b = g.pull_size(c.ch);
                    g.emit("dec", &[("s", s), ("buf", b)]);
                }
                4..=5 => {
                    let ms = match g.r.below(4) {
                        0 => g.r.range(0, 100),
                        1 => g.r.log(1, 1_000_000),
                        2 => g.r.pick(&[0, 1, i64::MAX, -1, i64::MIN, 1 << 32]),
                        _ => g.r.range(0, 20),
                    };
                    g.emit("seek", &[("s", s), ("ms", ms)]);
                }
                6 => {
                    let how = g.r.range(0, 1);
                    g.emit("rewind", &[("s", s), ("how", how)]);
                }
                7 => g.emit("save", &[("s", s), ("f", 2), ("len", 1)]),
                _ => g.drain("drain", s, c.ch),
            }
        }
        g.drain("drain", s, c.ch);
    }
}

/// C10: size limits are watched all the time
fn gen_bound(g: &mut G) {
    if g.r.chance(0.25) {
        let c = wav_cfg(g);
        wnew(g, 1, &c);
        let rec = wrecord(g, 1, &c, 2000);
        for _ in 0..g.r.range(0, 4) {
            let ms = g.seek_ms(&c, &rec);
            g.emit("wseek", &[("s", 1), ("w", 0), ("ms", ms)]);
            let n = g.r.log(1, 200);
            g.enc("wenc", 1, &c, n, (3, 1_000_000));
        }
        g.emit("wsave", &[("s", 1), ("f", 1)]);
        return;
    }
    let mut c = g.cfg();
    g.new_session(1, &c);
    g.emit("bound", &[("s", 1)]);
    for round in 0..g.r.range(1, 3) {
        let other = if round > 0 { g.reform(&mut c, 0.2) } else { vec![] };
        let at = g.out.len();
        let mut ch = g.chunks(8000 / c.ch, if c.ch < 3 { 0.002 } else { 0.0 });
        while ch.first() == Some(&0) {
            ch.remove(0);
        }
        let base = g.sigkind();
        for (i, &n) in ch.iter().enumerate() {
            g.enc("enc", 1, &c, n, base);
            if i < 6 || g.r.chance(0.1) {
                g.emit("bound", &[("s", 1)]);
            }
        }
        g.first_chunk(at, other);
        if g.r.chance(0.5) {
            quiet_save(g, 1, 1);
            quiet_load(g, 2, 1);
            g.emit("bound", &[("s", 2)]);
            if g.r.chance(0.5) {
                let b = g.pull_size(c.ch);
                g.emit("dec", &[("s", 2), ("buf", b)]);
                g.emit("bound", &[("s", 2)]);
            }
            if g.r.chance(0.5) {
                let ms = g.r.range(0, 1000);
                g.emit("seek", &[("s", 2), ("ms", ms)]);
                g.emit("bound", &[("s", 2)]);
            }
            g.drain("drain", 2, c.ch);
            g.emit("bound", &[("s", 2)]);
        }
        g.emit("rewind", &[("s", 1), ("how", 0)]);
        g.emit("bound", &[("s", 1)]);
        if g.r.chance(0.3) {
            g.drain("drain", 1, c.ch);
            g.emit("bound", &[("s", 1)]);
            g.emit("rewind", &[("s", 1), ("how", 1)]);
        }
    }
}

/// C11: WAV recorder -> file -> player
fn gen_wav(g: &mut G) {
    let mut c = wav_cfg(g);
    if g.r.chance(0.001) {
        // more than the format has room for
        c.ch = g.r.pick(&[65536, 65537, 70_000, 131_073]);
    }
    wnew(g, 1, &c);
    if g.r.chance(0.2) {
        // the very short end, where header parsing is delicate
        let n = g.r.range(0, 130) / c.ch.min(65);
        let ch = [n];
        g.record_chunks("wenc", 1, &c, &ch);
    } else {
        wrecord(g, 1, &c, 12_000);
    }
    g.emit("wsave", &[("s", 1), ("f", 1)]);
    g.emit("wload", &[("s", 2), ("f", 1)]);
    if g.r.chance(0.6) {
        for _ in 0..g.r.range(1, 25) {
            let b = g.pull_size(c.ch);
            g.t += g.r.below(20_000);
            g.emit("wdec", &[("s", 2), ("buf", b)]);
        }
    }
    g.drain("wdrain", 2, c.ch);
    if g.r.chance(0.3) {
        g.emit("wsave", &[("s", 2), ("f", 2)]);
        g.emit("wload", &[("s", 3), ("f", 2)]);
        g.drain("wdrain", 3, c.ch);
    }
}

/// C12: editing a WAV
fn gen_wcursor(g: &mut G) {
    let mut c = wav_cfg(g);
    if g.r.chance(0.6) {
        c.rate = g.r.pick(&[1000, 2000, 8000, 1, 44100, 999, 500]);
    }
    wnew(g, 1, &c);
    let mut s = 1;
    let mut frames = 0i64;
    for _ in 0..g.r.range(2, 30) {
        g.t += g.r.below(1_000_000);
        match g.r.below(10) {
            0..=2 => {
                let n = if c.ch > 1000 { g.r.range(0, 2) } else { g.r.log(1, 300) - 1 };
                let base = g.sigkind();
                g.enc("wenc", s, &c, n, base);
                frames += n;
            }
            3..=5 => {
                let b = g.pull_size(c.ch).min(4000);
                g.emit("wdec", &[("s", s), ("buf", b)]);
            }
            6..=8 => {
                let w = g.r.range(0, 2);
                let end = if c.rate > 0 { frames * 1000 / c.rate } else { 10 };
                let ms = match g.r.below(8) {
                    0 => 0,
                    1 => g.r.pick(&[i64::MAX, i64::MIN, -1, 1, 1 << 40, -(1 << 40), i64::MIN + 1, 1 << 62]),
                    2 => end,
                    3 => -end,
                    4 => g.r.range(-3, 3),
                    5 => end + g.r.range(-2, 2),
                    _ => g.r.range(-end - 1, end + 1),
                };
                g.emit("wseek", &[("s", s), ("w", w), ("ms", ms)]);
            }
            _ => {
                g.emit("wsave", &[("s", s), ("f", 1)]);
                if g.r.chance(0.5) {
                    s += 1;
                    g.emit("wload", &[("s", s), ("f", 1)]);
                }
            }
        }
    }
    g.emit("wseek", &[("s", s), ("w", 0), ("ms", 0)]);
    g.drain("wdrain", s, c.ch);
    g.emit("wsave", &[("s", s), ("f", 1)]);
    g.emit("wload", &[("s", 99), ("f", 1)]);
    g.drain("wdrain", 99, c.ch);
}

/// C13: WAV files of others, and damaged ones
impl G {
    pub fn foreign_how(&mut self) -> i64 {
        if self.r.chance(0.3) { self.r.range(0, 7) } else { self.r.range(0, 127) }
    }
}
fn gen_wforeign(g: &mut G) {
    let mut c = wav_cfg(g);
    if g.r.chance(0.97) {
        c.ch = if c.ch > 64 { 1 + c.ch % 64 } else { c.ch };
    }
    if g.r.chance(0.5) {
        let pre = match g.r.below(4) {
            0 => 0,
            1 => g.r.range(1, 24),
            _ => g.r.range(1, 230),
        };
        let post = match g.r.below(4) {
            0 => 0,
            1 => g.r.range(1, 40),
            _ => g.r.log(1, 2000),
        };
        let bits = g.r.pick(&[8, 16, 16]);
        let n = match g.r.below(3) {
            _ if c.ch > 64 => g.r.range(0, 3),
            0 => g.r.range(0, 4),
            1 => g.r.range(0, 140) / c.ch,
            _ if g.r.chance(0.06) => g.r.log(3000, 80_000) / c.ch,
            _ => g.r.log(1, 3000) / c.ch,
        };
        let (how, seed) = (g.foreign_how(), g.seed());
        g.emit(
            "wforeign",
            &[("f", 1), ("ch", c.ch), ("rate", c.rate), ("bits", bits), ("n", n), ("pre", pre), ("post", post), ("how", how), ("seed", seed)],
        );
        g.emit("wload", &[("s", 1), ("f", 1)]);
        for _ in 0..g.r.range(0, 6) {
            let b = g.pull_size(c.ch).min(4000);
            g.emit("wdec", &[("s", 1), ("buf", b)]);
        }
        g.drain("wdrain", 1, c.ch);
        if g.r.chance(0.3) {
            g.emit("wsave", &[("s", 1), ("f", 2)]);
            g.emit("wload", &[("s", 2), ("f", 2)]);
        }
        if g.r.chance(0.5) {
            return;
        }
    }
    c.ch = if c.ch > 64 { 1 + c.ch % 64 } else { c.ch };
    wnew(g, 1, &c);
    let rec = wrecord(g, 1, &c, 500);
    for round in 0..g.r.range(1, 8) {
        match g.r.below(10) {
            0 => {
                let (n, how, seed) = (g.r.log(1, 700), g.r.range(0, 3), g.seed());
                g.emit("garbage", &[("f", 1), ("len", n), ("how", how), ("seed", seed), ("w", 1)]);
            }
            1..=2 => {
                let (pre, post, n, how, seed) = (g.r.range(0, 230), g.r.range(0, 60), g.r.range(0, 60), g.foreign_how(), g.seed());
                let bits = g.r.pick(&[8, 16]);
                g.emit(
                    "wforeign",
                    &[("f", 1), ("ch", c.ch), ("rate", c.rate), ("bits", bits), ("n", n), ("pre", pre), ("post", post), ("how", how), ("seed", seed)],
                );
            }
            _ => g.emit("wsave", &[("s", 1), ("f", 1), ("len", 1)]),
        }
        for _ in 0..g.r.range(1, 4) {
            match g.r.below(8) {
                0..=3 => {
                    let (o, w) = g.r.pick(&[(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 2), (22, 2), (24, 4), (28, 4), (32, 2), (34, 2), (36, 4), (40, 4), (22, 4), (44, 2)]);
                    let v = match g.r.below(6) {
                        0 => u32::from_le_bytes(*b"data") as i64,
                        1 => g.r.u64() as i64,
                        2 => g.r.range(0, 300),
                        3 => 8,
                        _ => g.r.pick(&WILD),
                    };
                    g.emit("field", &[("f", 1), ("off", o), ("w", w), ("val", v)]);
                }
                4 => {
                    let (o, v) = (g.r.range(0, 300), g.r.range(1, 255));
                    g.emit("poke", &[("f", 1), ("off", o), ("val", v)]);
                }
                5 => {
                    // a stray data tag near the end of the search window
                    let o = g.r.range(230, 260);
                    g.emit("field", &[("f", 1), ("off", 36), ("w", 4), ("val", 0)]);
                    g.emit("field", &[("f", 1), ("off", o), ("w", 4), ("val", u32::from_le_bytes(*b"data") as i64)]);
                }
                6 => {
                    let (o, n, v) = (g.r.range(0, 300), g.r.log(1, 300), g.r.pick(&[0, 255]));
                    g.emit("fill", &[("f", 1), ("off", o), ("len", n), ("val", v)]);
                }
                _ => {
                    let (k, kind) = (g.r.range(1, 300), g.r.range(1, 2));
                    g.emit("cut", &[("f", 1), ("kind", kind), ("keep", k)]);
                    g.emit("poke", &[("f", 1), ("off", 0), ("val", 0)]);
                }
            }
        }
        let s = 10 + round;
        g.emit("wload", &[("s", s), ("f", 1)]);
        for _ in 0..g.r.range(0, 5) {
            match g.r.below(4) {
                0 => {
                    let b = g.pull_size(c.ch).min(4000);
                    g.emit("wdec", &[("s", s), ("buf", b)]);
                }
                1 => {
                    let (w, ms) = (g.r.range(0, 2), g.seek_ms(&c, &rec));
                    g.emit("wseek", &[("s", s), ("w", w), ("ms", ms)]);
                }
                2 => g.emit("wsave", &[("s", s), ("f", 2), ("len", 1)]),
                _ => g.drain("wdrain", s, c.ch),
            }
        }
        g.drain("wdrain", s, c.ch);
    }
}

/// C16: several applications in one process
fn gen_isolated(g: &mut G) {
    let n = g.r.range(2, 4);
    // each session is its own actor with its own clock
    let mut actors: Vec<Vec<Step>> = vec![];
    let seeds: Vec<i64> = (0..n).map(|_| g.seed()).collect();
    let shared = g.cfg();
    let twins = g.r.chance(0.4);
    let twin_seed = g.seed();
    for i in 0..n {
        let mut a = G { r: Rng::new(mix2(if twins && i < 2 { twin_seed as u64 } else { seeds[i as usize] as u64 }, 77)), t: g.r.below(100_000), out: vec![] };
        let c = if g.r.chance(0.3) || (twins && i < 2) { shared.clone() } else { a.cfg() };
        let s = i + 1;
        if a.r.chance(0.2) {
            wnew(&mut a, s, &c);
            let rec = wrecord(&mut a, s, &c, 600);
            if a.r.chance(0.5) {
                a.emit("wsave", &[("s", s), ("f", 10 + s)]);
            }
            for _ in 0..a.r.range(0, 3) {
                let ms = a.seek_ms(&c, &rec);
                a.emit("wseek", &[("s", s), ("w", 0), ("ms", ms)]);
                let b = a.pull_size(c.ch);
                a.t += 1000;
                a.emit("wdec", &[("s", s), ("buf", b)]);
            }
            a.emit("wsave", &[("s", s), ("f", 20 + s), ("len", 1)]);
        } else {
            let mut c = c;
            a.new_session(s, &c);
            for round in 0..a.r.range(1, 2) {
                let other = if round > 0 { a.reform(&mut c, 0.2) } else { vec![] };
                let at = a.out.len();
                let mut ch = a.chunks(1500 / c.ch, 0.0);
                while ch.first() == Some(&0) {
                    ch.remove(0);
                }
                let base = a.sigkind();
                for &k in &ch {
                    a.enc("enc", s, &c, k, base);
                    if a.r.chance(0.08) {
                        a.emit("save", &[("s", s), ("f", 10 + s)]);
                    }
                    if a.r.chance(0.04) {
                        let (at, kind, ios) = (a.r.log(0, 3000), a.r.range(0, io::NKINDS - 1), a.seed());
                        a.emit("save", &[("s", s), ("f", 30 + s), ("fail", at), ("kind", kind), ("ios", ios), ("short", 30)]);
                    }
                    if a.r.chance(0.08) {
                        let op = a.r.pick(&["count", "bound", "info"]);
                        a.emit(op, &[("s", s)]);
                    }
                }
                a.first_chunk(at, other);
                a.t += 3000;
                a.emit("save", &[("s", s), ("f", 20 + s), ("len", 1)]);
                a.emit("rewind", &[("s", s), ("how", 0)]);
                for _ in 0..a.r.range(0, 8) {
                    let b = a.pull_size(c.ch);
                    a.t += a.r.below(20_000);
                    a.emit("dec", &[("s", s), ("buf", b)]);
                    if a.r.chance(0.1) {
                        let op = a.r.pick(&["count", "bound", "info", "save"]);
                        a.emit(op, &[("s", s), ("f", 10 + s)]);
                    }
                    if a.r.chance(0.1) {
                        let ms = a.r.range(0, 60);
                        a.emit("seek", &[("s", s), ("ms", ms)]);
                    }
                }
                a.drain("drain", s, c.ch);
                a.emit("rewind", &[("s", s), ("how", 1)]);
            }
            if a.r.chance(0.3) {
                // its own file opened again
                a.t += 1000;
                if a.r.chance(0.2) {
                    let at = a.r.log(0, 1500);
                    a.emit("load", &[("s", s), ("f", 20 + s), ("fail", at)]);
                }
                a.emit("load", &[("s", s), ("f", 20 + s), ("ios", 1), ("short", 30)]);
                if a.r.chance(0.5) {
                    let ms = a.r.range(0, 60);
                    a.emit("seek", &[("s", s), ("ms", ms)]);
                }
                a.drain("drain", s, c.ch);
                if a.r.chance(0.3) {
                    a.emit("save", &[("s", s), ("f", 20 + s), ("len", 1)]);
                }
            }
        }
        // compress its clock so that the sessions overlap
        let span = a.out.last().map(|s| s.t).unwrap_or(1).max(1);
        for st in a.out.iter_mut() {
            st.t = (st.t as u128 * 5_000_000 / span as u128) as u64;
        }
        actors.push(a.out);
    }
    // merge by time; ties and small inversions are decided by the scheduler
    let mut idx = vec![0usize; n as usize];
    let style = g.r.below(3);
    loop {
        let live: Vec<usize> = (0..n as usize).filter(|&i| idx[i] < actors[i].len()).collect();
        if live.is_empty() {
            break;
        }
        let i = match style {
            0 => *live.iter().min_by_key(|&&i| actors[i][idx[i]].t).unwrap(),
            _ => live[g.r.below(live.len() as u64) as usize],
        };
        if g.r.chance(0.1) {
            let to = g.r.range(0, 3);
            g.emit("thread", &[("to", to)]);
        }
        let mut st = actors[i][idx[i]].clone();
        g.t = g.t.max(st.t);
        st.t = g.t;
        g.out.push(st);
        idx[i] += 1;
    }
    if g.r.chance(0.4) {
        // and once more on preempted threads
        let (seed, gap) = (g.seed(), g.r.range(11, 18));
        g.emit("par", &[("seed", seed), ("x", gap)]);
    }
}

/// C17: everything an application does, counted
fn gen_count(g: &mut G) {
    let mut c = g.cfg();
    g.new_session(1, &c);
    if c.ch <= 16 && g.r.chance(0.01) {
        // a file of a very long recording
        g.emit("enc", &[("s", 1), ("n", 4), ("sig", 0)]);
        g.emit("save", &[("s", 1), ("f", 1)]);
        let (n, len) = (g.r.pick(&[200, 65535, 65536, 65600, 66000, 100_000]), g.r.pick(&[3, 65535, 65535, 65535, 40000]));
        g.emit("stretch", &[("f", 1), ("n", n), ("len", len)]);
        g.emit("load", &[("s", 2), ("f", 1)]);
        g.emit("dec", &[("s", 2), ("buf", 4 * c.ch)]);
        let ms = g.r.log(1, 1 << 34);
        g.emit("seek", &[("s", 2), ("ms", ms)]);
        g.emit("count", &[("s", 2)]);
        g.emit("save", &[("s", 2), ("f", 2)]);
        g.emit("load", &[("s", 3), ("f", 2)]);
        g.emit("rewind", &[("s", 3), ("how", 1)]);
        g.emit("count", &[("s", 3)]);
    }
    g.emit("count", &[("s", 1)]);
    for round in 0..g.r.range(1, 3) {
        let other = if round > 0 { g.reform(&mut c, 0.2) } else { vec![] };
        let at = g.out.len();
        let mut ch = g.chunks(6000 / c.ch, if c.ch < 3 { 0.02 } else { 0.0 });
        while ch.first() == Some(&0) {
            ch.remove(0);
        }
        let rec = g.record_chunks("enc", 1, &c, &ch);
        g.first_chunk(at, other);
        for _ in 0..g.r.range(1, 5) {
            g.t += 1000;
            match g.r.below(7) {
                0 => quiet_save(g, 1, 1),
                1 => {
                    quiet_save(g, 1, 1);
                    quiet_load(g, 2, 1);
                }
                2 => {
                    g.emit("rewind", &[("s", 1), ("how", 0)]);
                    let b = g.pull_size(c.ch);
                    g.emit("dec", &[("s", 1), ("buf", b)]);
                }
                3 => {
                    let ms = g.seek_ms(&c, &rec);
                    g.emit("seek", &[("s", 1), ("ms", ms)]);
                }
                4 => {
                    g.emit("rewind", &[("s", 1), ("how", 1)]);
                    g.drain("drain", 1, c.ch);
                }
                5 => {
                    let b = g.pull_size(c.ch);
                    g.emit("dec", &[("s", 2), ("buf", b)]);
                }
                _ => {
                    quiet_save(g, 1, 1);
                    quiet_load(g, 2, 1);
                    g.drain("drain", 2, c.ch);
                }
            }
        }
        g.emit("rewind", &[("s", 1), ("how", 0)]);
    }
    if g.r.chance(0.2) {
        let c = wav_cfg(g);
        wnew(g, 5, &c);
        wrecord(g, 5, &c, 300);
    }
}

/// C18: recorder, autosave timer with two slots, failing disk, crash
fn gen_autosave(g: &mut G) {
    let mut c = g.cfg();
    g.new_session(1, &c);
    // the recorder may be used once more: nothing of what it recorded before was saved
    let other = g.used_before(1, &mut c, 0.15);
    let used = other.is_some();
    let other = other.unwrap_or_default();
    let at = g.out.len();
    let mut chunks = g.chunks(6000 / c.ch, if c.ch < 3 { 0.003 } else { 0.0 });
    while used && chunks.first() == Some(&0) {
        chunks.remove(0);
    }
    let base = g.sigkind();
    let crash_at = if g.r.chance(0.7) { g.r.below(chunks.len() as u64 + 1) as usize } else { usize::MAX };
    let pace = g.r.pick(&[0.05, 0.2, 0.6, 1.0]);
    let mut slot = 0;
    let mut crashed = false;
    for (i, &n) in chunks.iter().enumerate() {
        if i == crash_at && g.r.chance(0.5) {
            crashed = true;
        }
        if crashed {
            break;
        }
        g.enc("enc", 1, &c, n, base);
        if g.r.chance(pace) && i < 150 {
            // the timer overwrites the older slot
            slot = 1 - slot;
            let mut kv = vec![("s", 1), ("f", 1 + slot)];
            if g.r.chance(0.4) {
                g.benign_io(&mut kv);
                if g.r.chance(0.5) {
                    let (k, p) = (g.r.range(0, io::NKINDS - 1), g.r.range(0, 1000));
                    kv.push(("kind", k));
                    kv.push(("fail", 0));
                    kv.push(("keep", p));
                    // a failed save may not advance the rotation: keep the good slot
                    slot = 1 - slot;
                }
            }
            if i == crash_at {
                let p = g.r.range(0, 1000);
                kv.retain(|e| e.0 != "fail" && e.0 != "kind" && e.0 != "keep");
                kv.push(("keep", p));
                g.emit_v("savecrash", kv);
                crashed = true;
                break;
            }
            g.emit_v("save", kv);
        }
        if i == crash_at {
            crashed = true;
        }
    }
    g.first_chunk(at, other);
    if used {
        // the same without snapshots
        let twin: Vec<Step> = g.out.iter().filter(|s| matches!(s.op, "new" | "enc" | "rewind" | "dec")).cloned().collect();
        for mut st in twin {
            st.t = g.t;
            if let Some(e) = st.kv.iter_mut().find(|e| e.0 == "s") {
                e.1 = 2;
            }
            g.out.push(st);
        }
        g.emit("final", &[("s", 1), ("x", 2)]);
    }
    if !crashed {
        g.emit("final", &[("s", 1)]);
        quiet_save(g, 1, 3);
        quiet_load(g, 3, 3);
        g.drain("drain", 3, c.ch);
    }
    g.t += 5_000_000;
    g.emit("recover", &[]);
}

/// C19: old and new nodes
fn gen_skew(g: &mut G) {
    let mut c = g.cfg();
    c.level = g.r.range(0, 10);
    if g.r.chance(0.35) {
        c.rate = g.r.pick(&[1000, 8000, 2000, 44100]);
    }
    g.emit("skew", &[("ch", c.ch), ("rate", c.rate), ("level", c.level)]);
    let mut chunks = g.chunks(8000 / c.ch, if c.ch < 3 { 0.002 } else { 0.0 });
    if g.r.chance(0.85) {
        // mostly recordings the old code survives
        while chunks.first().map(|n| *n < 3).unwrap_or(false) {
            chunks.remove(0);
        }
        let mut run = 0;
        chunks.retain(|n| {
            run = if *n == 0 { run + 1 } else { 0 };
            run < 8
        });
    }
    let mild = g.r.chance(0.8);
    let base = loop {
        let b = g.sigkind();
        if !mild || matches!(b.0, 0 | 1 | 2 | 5 | 8 | 10 | 11 | 18) {
            break b;
        }
    };
    let mut rec = Rec::default();
    for n in chunks {
        let seed = g.seed();
        g.gap(c.rate, n);
        g.emit("enc", &[("s", 1), ("n", n), ("sig", base.0), ("amp", if mild { base.1.min(900_000) } else { base.1 }), ("seed", seed)]);
        rec.starts.push(rec.frames);
        rec.frames += n;
    }
    for _ in 0..g.r.range(0, 4) {
        let ms = g.seek_ms(&c, &rec);
        let b = g.pull_size(c.ch);
        g.emit("skewseek", &[("ms", ms), ("buf", b)]);
    }
}

/// a session and the same session eight or so times as long, as fine or as wide
fn gen_cost(g: &mut G) {
    let axis = g.r.range(0, 2);
    let codec = g.r.chance(0.2) as i64;
    let k = g.r.range(6, 10);
    let how = g.r.range(0, 15);
    let level = g.r.range(0, 10);
    let rate = g.r.pick(&[8000, 16000, 44100, 48000]);
    let kinds = [0, 1, 2, 3, 4, 5, 7, 10, 15, 18, 19];
    let (ch, rounds, lens): (i64, i64, Vec<i64>) = match axis {
        0 => {
            let ch = g.r.log(1, 16);
            let lens: Vec<i64> = match g.r.below(4) {
                0 => vec![1],
                1 => vec![0, g.r.range(1, 4)],
                2 => (0..g.r.range(1, 4)).map(|_| g.r.range(0, 8)).collect(),
                _ => vec![g.r.log(1, 200)],
            };
            let sum = lens.iter().sum::<i64>().max(1);
            let base = g.r.log(6_000, 30_000) / (sum * ch);
            (ch, base.clamp(20, 6000) / lens.len() as i64, lens)
        }
        1 => {
            let ch = g.r.log(1, 8);
            (ch, g.r.range(1, 3), vec![g.r.log(2_000, 16_000) / ch])
        }
        _ => {
            let ch = g.r.log(8, 200);
            let f = g.r.log(1, 60);
            let lens = if g.r.chance(0.5) { vec![f] } else { vec![f, g.r.range(0, 3), g.r.log(1, 30)] };
            (ch, (8_000 / (ch * lens.iter().sum::<i64>().max(1))).clamp(1, 200), lens)
        }
    };
    g.emit("cost", &[("s", codec), ("ch", ch), ("rate", rate), ("level", level), ("x", axis), ("n", k), ("lo", rounds.max(1)), ("how", how)]);
    for n in lens {
        let (kind, seed) = (g.r.pick(&kinds), g.seed());
        g.gap(rate, n);
        g.emit("enc", &[("n", n), ("sig", kind), ("seed", seed)]);
    }
    for _ in 0..g.r.range(1, 3) {
        let b = match g.r.below(3) {
            0 => 1,
            1 => g.r.log(1, 64),
            _ => g.r.log(64, 4096),
        };
        g.emit("dec", &[("buf", b)]);
    }
}
/// C23: the same work again and again
fn gen_cycle(g: &mut G) {
    let mut c = g.cfg();
    if c.ch > 64 {
        c.ch = c.ch % 16 + 1;
    }
    c.level = if g.r.chance(0.6) { 0 } else { g.r.range(1, 10) };
    if c.rate == 0 {
        c.rate = 8000;
    }
    let wav = g.r.chance(0.2) as i64;
    let n = g.r.log(8, 60);
    g.emit("cycle", &[("s", wav), ("ch", c.ch), ("rate", c.rate), ("level", c.level), ("n", n)]);
    let mut size = 0;
    for _ in 0..g.r.range(1, 3) {
        if g.r.chance(0.2) {
            g.emit("info", &[]);
        }
        let mut ch = g.chunks(40_000 / (n * c.ch) + 20, 0.0);
        ch.truncate(g.r.log(1, 300) as usize);
        let (kind, amp) = g.sigkind();
        for k in ch {
            let seed = g.seed();
            g.gap(c.rate, k);
            g.emit("enc", &[("n", k), ("sig", kind), ("seed", seed), ("amp", amp)]);
            size += k * c.ch;
        }
        let mut last = g.r.range(0, 5);
        for _ in 0..last {
            match g.r.below(8) {
                0 | 1 => {
                    let mut kv = vec![];
                    g.benign_io(&mut kv);
                    if g.r.chance(0.5) {
                        let at = g.r.log(0, 3 * size.max(1));
                        let k = g.r.range(0, io::NKINDS - 1);
                        kv.extend([("fail", at), ("kind", k)]);
                    }
                    if g.r.chance(0.2) {
                        let cap = g.r.log(0, 3000);
                        kv.push(("cap", cap));
                    }
                    g.emit_v("save", kv);
                }
                2 => g.emit("rewind", &[]),
                3 => {
                    g.emit("rewind", &[]);
                    let b = g.pull_size(c.ch);
                    g.emit("dec", &[("buf", b)]);
                }
                4 => {
                    let ms = g.r.log(0, 2 + size / c.ch * 1000 / c.rate);
                    g.emit("seek", &[("ms", ms)]);
                }
                5 => {
                    let b = g.pull_size(c.ch);
                    g.emit("dec", &[("buf", b)]);
                }
                6 => {
                    g.emit("rewind", &[]);
                    let b = g.r.log(c.ch, 3000.max(c.ch));
                    g.emit("drain", &[("buf", b)]);
                }
                _ => {
                    let mut kv = vec![];
                    g.benign_io(&mut kv);
                    if g.r.chance(0.4) {
                        let at = g.r.log(0, 3 * size.max(1));
                        let k = g.r.range(0, io::NKINDS - 1);
                        kv.extend([("fail", at), ("kind", k)]);
                    }
                    g.emit_v("load", kv);
                }
            }
            last -= 1;
        }
        g.emit("rewind", &[]);
    }
}
/// C24: who writes next, and what, is the scheduler's choice
fn gen_frames(g: &mut G) {
    let tracks = g.r.log(1, 8);
    g.emit("frames", &[("n", tracks)]);
    let steps = g.r.log(2, 120);
    // each run has its own mix of work
    let raw = g.r.range(0, 60);
    let long = g.r.chance(0.1);
    let list = g.r.chance(0.2);
    let whims = g.r.range(0, 30);
    let mut budget = 60_000;
    let mut burst = (0, 0);
    for _ in 0..steps {
        g.t += g.r.log(1, 5000) as u64;
        let k = g.r.below(100) as i64;
        if k < raw {
            let (kind, n, val, seed, x) = (g.r.range(0, 5), g.r.range(0, 128), g.r.range(0, 5), g.seed(), g.r.range(0, 1));
            g.emit("raw", &[("kind", kind), ("n", n), ("val", val), ("seed", seed), ("x", x)]);
        } else if k < 100 - whims {
            if burst.1 == 0 {
                burst = (g.r.range(0, tracks - 1), g.r.log(1, 6));
            }
            burst.1 -= 1;
            let (sig, amp) = g.sigkind();
            let n = match g.r.below(20) {
                0 => 0,
                1..=3 => g.r.range(1, 4),
                4 if long => g.r.pick(&[65_535, 65_534, 32_768, 16_384]),
                _ => g.r.log(1, 600),
            };
            if n > budget + 70_000 {
                continue;
            }
            budget -= n;
            let seed = g.seed();
            let sig = if sig == 14 { 15 } else { sig };
            g.emit("frame", &[("s", burst.0), ("n", n), ("sig", sig), ("seed", seed), ("amp", amp)]);
        } else {
            let (x, seed) = (g.r.range(0, 1 << 20), g.seed());
            match g.r.below(10) {
                0 | 1 => g.emit("mark", &[]),
                2 => g.emit("back", &[("n", x), ("x", seed & 1)]),
                3 => {
                    let n = if g.r.chance(0.5) { -1 } else { x };
                    g.emit("play", &[("n", n), ("seed", seed)])
                }
                4..=6 => g.emit("one", &[("n", x), ("seed", seed)]),
                7 => {
                    let mut kv = vec![];
                    g.benign_io(&mut kv);
                    if g.r.chance(0.4) {
                        let at = g.r.log(0, 5000);
                        let k = g.r.range(0, io::NKINDS - 1);
                        kv.extend([("fail", at), ("kind", k)]);
                    }
                    g.emit_v("store", kv);
                }
                8 if g.r.chance(0.5) => {
                    let mut kv = vec![];
                    g.benign_io(&mut kv);
                    g.emit_v("crash", kv);
                }
                8 => {
                    let (a, b, c) = (g.r.log(0, 4_000_000_000), g.r.log(0, 4_000_000_000), g.r.below(3) as i64);
                    g.emit("sinfo", &[("kind", c), ("rate", a), ("ch", b)]);
                }
                _ => {
                    let s = g.r.range(0, tracks - 1);
                    g.emit("reinit", &[("s", s)]);
                }
            }
        }
        if list && g.r.chance(0.5) {
            let (kind, seed) = (g.r.range(0, 4), g.seed());
            let n = match kind {
                0 if g.r.chance(0.001) => 66_000,
                0 => g.r.log(1, 100),
                _ => g.r.range(0, 1 << 20),
            };
            g.emit("hdr", &[("kind", kind), ("n", n), ("seed", seed)]);
        }
        if list && g.r.chance(0.1) {
            let (n, x, seed) = (g.r.log(1, 40), g.r.range(2, 6), g.seed());
            g.emit("past", &[("n", n), ("x", x), ("seed", seed)]);
        }
    }
}
fn gen_size(g: &mut G) {
    let mut c = g.cfg();
    c.level = g.r.range(0, 10);
    if c.ch > 1000 && g.r.chance(0.8) {
        c.ch = c.ch % 8 + 1;
    }
    g.emit("size", &[("ch", c.ch), ("rate", c.rate), ("level", c.level)]);
    let typical = c.ch <= 64 && g.r.chance(0.5);
    let giant = if c.ch < 3 { 0.004 } else { 0.0 };
    let mut chunks = if typical && g.r.chance(0.7) {
        let base = g.r.pick(&[256, 480, 512, 1024, 4096]);
        let m = g.r.log(1, 30);
        (0..m).map(|_| base + if g.r.chance(0.3) { g.r.range(0, base) } else { 0 }).collect()
    } else {
        g.chunks(12_000 / c.ch, giant)
    };
    let sum: i64 = chunks.iter().sum();
    if sum * c.ch > 60_000 && !chunks.iter().any(|n| *n > 20_000) {
        let keep = (chunks.len() as i64 * 60_000 / (sum * c.ch)).max(1) as usize;
        chunks.truncate(keep);
    }
    if g.r.chance(0.85) {
        while chunks.first().map(|n| *n < 3).unwrap_or(false) {
            chunks.remove(0);
        }
    }
    let base = if typical {
        match g.r.below(6) {
            0 => (g.r.range(0, 1), 1_000_000),
            1 => (3, g.r.range(0, 5_000)),
            _ => (19, g.r.range(20_000, 900_000)),
        }
    } else {
        g.sigkind()
    };
    // a device that is polled more often than it has audio
    let idle = g.r.chance(0.1);
    for n in chunks {
        if idle && g.r.chance(0.5) {
            for _ in 0..g.r.log(1, 400) {
                let part = if c.ch > 1 && g.r.chance(0.3) { g.r.range(1, c.ch - 1) } else { 0 };
                g.emit("enc", &[("n", 0), ("part", part)]);
            }
        }
        let b = if !typical && g.r.chance(0.15) { g.sigkind() } else { base };
        let seed = if typical { 7 + plan_seed(g) } else { g.seed() };
        g.gap(c.rate, n);
        g.emit("enc", &[("n", n), ("sig", b.0), ("amp", b.1), ("seed", seed)]);
    }
}
/// one seed for all the chunks of a recording, so that a tone goes on from chunk to chunk
fn plan_seed(g: &G) -> i64 {
    (g.out.first().map(|s| s.get("rate") ^ s.get("ch") << 20).unwrap_or(0) & 0xffff_ffff) % 1000
}

pub fn generate(prop: &str, base_seed: u64, index: u64) -> Plan {
    if prop == "C25" {
        return crate::arch::generate(base_seed, index);
    }
    if prop == "C26" {
        return crate::big::generate(base_seed, index);
    }
    let seed = mix2(mix2(base_seed, hash_str(prop)), index);
    let mut g = G { r: Rng::new(seed), t: 0, out: vec![] };
    if index % 2_000_000 == 7 && matches!(prop, "C01" | "C04" | "C10") {
        // once: more than 2^32 bits
        let ch = g.r.pick(&[1, 1, 2, 4]);
        let len = g.r.pick(&[65535, 65521, 65000]);
        let x = g.r.range(2, 12);
        let s = g.seed();
        let n = 266_000_000 / ch / len;
        g.emit("long", &[("ch", ch), ("rate", 1000), ("len", len), ("n", n), ("x", x), ("seed", s)]);
        return Plan { prop: prop.into(), seed: base_seed, index, steps: g.out, notes: vec![] };
    }
    if index % 2_000_000 % 250_000 == 7 && prop == "C11" {
        // twice in the quick check: as much as a WAV file can hold, and more
        let ch = g.r.pick(&[1, 1, 2, 6]);
        let n = if index % 500_000 == 7 { g.r.pick(&[1, 1, 16, 20, 40, 3000, 100_000]) } else { g.r.pick(&[0, 0, -1, -2, -3000]) };
        let x = g.r.log(0, 100_000);
        let s = g.seed();
        let rate = g.r.pick(&[8000, 44100, 48000]);
        g.emit("wlong", &[("ch", ch), ("rate", rate), ("n", n), ("x", x), ("seed", s)]);
        return Plan { prop: prop.into(), seed: base_seed, index, steps: g.out, notes: vec![] };
    }
    match prop {
        "C01" | "C02" => gen_roundtrip(&mut g, prop),
        "C03" => gen_pull(&mut g),
        "C04" => gen_seek(&mut g),
        "C05" => gen_reuse(&mut g),
        "C06" | "C07" => gen_io(&mut g, prop),
        "C08" => gen_torn(&mut g),
        "C09" => gen_corrupt(&mut g),
        "C10" => gen_bound(&mut g),
        "C11" => gen_wav(&mut g),
        "C12" => gen_wcursor(&mut g),
        "C13" => gen_wforeign(&mut g),
        "C14" | "C15" | "C20" => crate::cli::generate(&mut g, prop),
        "C16" => gen_isolated(&mut g),
        "C17" => gen_count(&mut g),
        "C18" => gen_autosave(&mut g),
        "C19" => gen_skew(&mut g),
        "C21" => gen_cost(&mut g),
        "C22" => gen_size(&mut g),
        "C23" => gen_cycle(&mut g),
        "C24" => gen_frames(&mut g),
        _ => panic!("no generator for {prop}"),
    }
    Plan { prop: prop.into(), seed: base_seed, index, steps: g.out, notes: vec![] }
}

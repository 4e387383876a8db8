//! C24: the public building blocks under AdhocCodec.  Several FrameCodecs and a writer of raw data share one
//! AudioStream and one FrameHeaders under a seeded scheduler; a player, retakes from marks, failing stores and crashes
//! come in between.
use crate::exec::{fault_stats, io_of, Outcome};
use crate::io::{Fired, Sink, Source};
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix2, Rng};
use crate::sig;
use adhoc_audio::codec::{AudioStream, CodecState, FrameCodec, FrameHeader, FrameHeaders};
use adhoc_audio::StreamInfo;

type Viol = (String, String);
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return Err(($class.to_string(), format!($($arg)*)))
    };
}

#[derive(Clone, Debug)]
enum What {
    /// a frame of a track, and which header describes it
    Frame { c: usize, hdr: usize, pcm: Vec<f32>, first: bool },
    /// a track starts afresh
    Init { c: usize },
    Bits { val: u128, n: usize },
    Num { val: u128, kind: i64 },
    Rice { exp: i16, val: i16 },
    RiceDiv { div: i16, val: i16 },
    Capped { kind: i64, val: i16 },
}
#[derive(Clone, Debug)]
struct Item {
    at: u128,
    end: u128,
    what: What,
}
struct Mark {
    items: usize,
    frames: usize,
    at: u128,
    tracks: Vec<FrameCodec>,
    fresh: Vec<bool>,
}
#[derive(Clone, Debug, PartialEq)]
struct Hdr {
    exponent: u8,
    size: u16,
    bit_cursor: u128,
    is_init: bool,
    history: [i16; 3],
}
fn hdr_of(h: &FrameHeader) -> Hdr {
    Hdr { exponent: h.exponent, size: h.size, bit_cursor: h.bit_cursor, is_init: h.is_init, history: h.stack_history }
}
fn low(val: u128, n: usize) -> u128 {
    if n >= 128 {
        val
    } else {
        val & ((1 << n) - 1)
    }
}
struct Sim {
    stream: AudioStream,
    headers: FrameHeaders,
    tracks: Vec<FrameCodec>,
    /// the next frame of a track is its first
    fresh: Vec<bool>,
    items: Vec<Item>,
    frames: usize,
    furthest: u128,
    marks: Vec<Mark>,
    saved: Option<(Vec<u8>, Vec<Item>, usize, u128)>,
    /// headers that are kept for their own sake
    list: FrameHeaders,
    model: Vec<Hdr>,
    /// a codec whose history is used on its own
    past: FrameCodec,
    past_model: Vec<i16>,
    fired: [Fired; 2],
    trace: u64,
}
const NUMS: [usize; 4] = [8, 16, 32, 64];
/// divisors of the capped numbers
const DIVS: [i16; 5] = [1, 2, 4, 16, 256];

impl Sim {
    fn end(&self) -> u128 {
        self.items.last().map(|i| i.end).unwrap_or(0)
    }
    fn note(&mut self, x: u64) {
        self.trace = mix2(self.trace, x);
    }
    fn put(&mut self, what: What) -> Result<(), Viol> {
        use What::*;
        let at = self.end();
        let end = self.stream.bit_cursor();
        if end < at {
            fail!("cursor", "writing {what:?} at bit {at} moves the stream back to bit {end}");
        }
        let rice = |exp: u32, val: i16| 2 + (val.unsigned_abs() as u128 >> exp) + exp as u128;
        let (least, most) = match &what {
            Bits { n, .. } => (*n as u128, *n as u128),
            Num { kind, .. } => (NUMS[*kind as usize] as u128, NUMS[*kind as usize] as u128),
            Rice { exp, val } => (rice(*exp as u32, *val), rice(*exp as u32, *val)),
            RiceDiv { div, val } => (rice((*div - 1).count_ones(), *val), rice((*div - 1).count_ones(), *val)),
            Capped { kind, .. } => (3, 19 + (DIVS[*kind as usize] - 1).count_ones() as u128),
            _ => (0, u128::MAX),
        };
        if end - at < least || end - at > most {
            fail!("bits", "writing {what:?} takes {} bits, it should be {least} to {most}", end - at);
        }
        self.furthest = self.furthest.max(end);
        self.note(end as u64);
        self.items.push(Item { at, end, what });
        let s = &self.stream;
        if s.len() as u128 != end {
            fail!("length", "the stream says it holds {} bits after writing up to bit {end}", s.len());
        }
        if s.capacity() as u128 != self.furthest {
            fail!("capacity", "capacity() is {}, the furthest bit ever written is {}", s.capacity(), self.furthest);
        }
        let (up, blocks) = (s.capacity_upperbound() as u128, s.blocks_allocated() as u128);
        if up < self.furthest || up > self.furthest + 4096 || up != blocks * 128 {
            fail!("allocated", "{} bits were written, {up} bits in {blocks} blocks of 128 bits are said to be allocated", self.furthest);
        }
        Ok(())
    }
    fn frame(&mut self, s: &Step) -> Result<(), Viol> {
        let c = s.get("s") as usize % self.tracks.len();
        let mut n = s.get("n").clamp(0, u16::MAX as i64) as usize;
        if self.fresh[c] {
            n = n.max(1);
        }
        let pcm = sig::gen(s.get("sig"), s.get("seed") as u64, s.opt("amp", 1_000_000), 0, n, 1);
        if pcm.iter().any(|x| !x.is_finite()) {
            return Ok(());
        }
        let at = self.end();
        let hdr = self.frames;
        self.tracks[c].encode_frame(&mut self.stream, &mut self.headers, &pcm);
        self.frames += 1;
        let first = std::mem::replace(&mut self.fresh[c], false);
        if self.headers.len() < self.frames {
            fail!("headers-lost", "{} headers after {} frames", self.headers.len(), self.frames);
        }
        let Some(h) = self.headers.get(hdr) else { fail!("headers-lost", "no header {hdr} after {} frames", self.frames) };
        if h.size as usize != n || h.bit_cursor != at || h.is_init != first || h.exponent > 15 {
            fail!("header", "frame {hdr}: {n} samples at bit {at}, first of its track: {first}; its header says {:?}", hdr_of(&h));
        }
        self.put(What::Frame { c, hdr, pcm, first })
    }
    fn raw(&mut self, s: &Step) -> Result<(), Viol> {
        let mut r = Rng::new(s.get("seed") as u64);
        let val = match s.get("val") {
            0 => (r.u64() as u128) << 64 | r.u64() as u128,
            1 => !0,
            2 => 0,
            3 => r.below(4) as u128,
            4 => !0 << r.below(128),
            _ => !0 >> r.below(128),
        };
        let small = match s.get("val") {
            1 => -1,
            2 => 0,
            3 => r.range(-4, 4) as i16,
            4 => r.pick(&[i16::MIN, i16::MAX, i16::MIN + 1, 128, 127, 129, -128, 256, 2048, 16, -16, 8191, -8192]),
            _ => val as i16,
        };
        let n = s.get("n").clamp(0, 128) as usize;
        let what = match s.get("kind") {
            0 => {
                // what lies above the n bits does not count
                let clean = low(val, n);
                self.stream.write_bits(if s.get("x") == 1 { val } else { clean }, n);
                What::Bits { val: clean, n }
            }
            1 => {
                self.stream.write_bit(val as u8);
                What::Bits { val: val & 1, n: 1 }
            }
            2 => {
                let kind = n as i64 % NUMS.len() as i64;
                match kind {
                    0 => self.stream.write(val as u8),
                    1 => self.stream.write(val as u16),
                    2 => self.stream.write(val as u32),
                    _ => self.stream.write(val as u64),
                }
                What::Num { val: low(val, NUMS[kind as usize]), kind }
            }
            3 => {
                let exp = (n % 16) as i16;
                self.stream.write_compressed(exp, small);
                What::Rice { exp, val: small }
            }
            4 => {
                let div = 1i16 << (n % 15);
                self.stream.write_compressed_divisor(div, small);
                What::RiceDiv { div, val: small }
            }
            _ => {
                let kind = n as i64 % DIVS.len() as i64;
                let v = small.clamp(-8192, 8191);
                match kind {
                    0 => self.stream.write_compressed_capped::<1>(v),
                    1 => self.stream.write_compressed_capped::<2>(v),
                    2 => self.stream.write_compressed_capped::<4>(v),
                    3 => self.stream.write_compressed_capped::<16>(v),
                    _ => self.stream.write_compressed_capped::<256>(v),
                }
                What::Capped { kind, val: v }
            }
        };
        self.put(what)
    }
    /// reads a raw item at the stream's position
    fn read(&mut self, i: usize, r: &mut Rng) -> Result<(), Viol> {
        let it = self.items[i].clone();
        let s = &mut self.stream;
        let look = r.chance(0.3);
        let (got, want) = match it.what {
            What::Bits { val, n } => {
                if look && s.peek_bits(n) != val {
                    fail!("peek", "item {i}: {n} bits at bit {} were {val:#x}, peek_bits shows something else", it.at);
                }
                let cut = if r.chance(0.3) { r.below(n as u64 + 1) as usize } else { 0 };
                let got = if n <= 128 && r.chance(0.2) {
                    (0..n).fold(0u128, |v, k| v | s.read_bit() << k)
                } else if cut > 0 {
                    let a = s.read_bits(cut);
                    let b = s.read_bits(n - cut);
                    if cut < 128 {
                        a | b << cut
                    } else {
                        a
                    }
                } else {
                    s.read_bits(n)
                };
                (got, val)
            }
            What::Num { val, kind } => {
                let shown = match (look, kind) {
                    (false, _) => val,
                    (_, 0) => s.peek::<u8>(),
                    (_, 1) => s.peek::<u16>(),
                    (_, 2) => s.peek::<u32>(),
                    _ => s.peek::<u64>(),
                };
                if shown != val {
                    fail!("peek", "item {i}: a number of {} bits at bit {} was {val:#x}, peek shows {shown:#x}", NUMS[kind as usize], it.at);
                }
                let got = match kind {
                    0 => s.read::<u8>(),
                    1 => s.read::<u16>(),
                    2 => s.read::<u32>(),
                    _ => s.read::<u64>(),
                };
                (got, val)
            }
            What::Rice { exp, val } => (s.read_compressed(exp) as u128, val as u128),
            What::RiceDiv { div, val } => (s.read_compressed_divisor(div) as u128, val as u128),
            What::Capped { kind, val } => (s.read_compressed_capped(DIVS[kind as usize]) as u128, val as u128),
            _ => return Ok(()),
        };
        if got != want {
            fail!("value", "item {i} ({:?}) at bit {} is read as {got:#x}", it.what, it.at);
        }
        Ok(())
    }
    fn judge(&self, i: usize, c: usize, pcm: &[f32], got: &[f32]) -> Result<(), Viol> {
        if got.len() != pcm.len() {
            fail!("samples", "item {i}: a frame of {} samples of track {c} comes back as {} samples", pcm.len(), got.len());
        }
        for (k, (x, y)) in pcm.iter().zip(got).enumerate() {
            let e = (*y as f64 - x.clamp(-1.0, 1.0) as f64).abs();
            if !(e <= 1.0 / 32767.0 + 1e-6) {
                fail!("samples", "item {i}: sample {k} of a frame of track {c} was {x} and comes back as {y}");
            }
        }
        Ok(())
    }
    fn at_end(&self, i: usize) -> Result<(), Viol> {
        let (is, end) = (self.stream.bit_cursor(), self.items[i].end);
        if is != end {
            fail!("cursor", "item {i} ({}) ends at bit {end}, reading it ends at bit {is}", name(&self.items[i].what));
        }
        Ok(())
    }
    /// back to the end, where writing goes on
    fn resume(&mut self) {
        let end = self.end();
        self.stream.set_bit_cursor(end);
        self.headers.set_cursor(self.frames as u32);
    }
    /// everything from the start with new decoders; returns what each track played
    fn play(&mut self, s: &Step) -> Result<Vec<Vec<f32>>, Viol> {
        let mut r = Rng::new(s.get("seed") as u64);
        let upto = match s.opt("n", -1) {
            -1 => self.items.len(),
            n => n as usize % (self.items.len() + 1),
        };
        let mut dec: Vec<FrameCodec> = self.tracks.iter().map(|_| FrameCodec::new()).collect();
        let mut out = vec![vec![]; dec.len()];
        self.stream.seek_start();
        self.headers.reset();
        for i in 0..upto {
            match self.items[i].what.clone() {
                What::Init { c } => dec[c].init(),
                What::Frame { c, pcm, .. } => {
                    let n = dec[c].decode_frame(&mut self.stream, &mut self.headers);
                    if n != Some(pcm.len()) {
                        fail!("samples", "item {i}: decode_frame returns {n:?} for a frame of {} samples of track {c}", pcm.len());
                    }
                    let got: Vec<f32> = dec[c].buffered_channel_mut().drain(..).collect();
                    self.judge(i, c, &pcm, &got)?;
                    if !dec[c].buffered_channel().is_empty() {
                        fail!("samples", "item {i}: samples are left in the queue of track {c}");
                    }
                    out[c].extend(got);
                }
                // the reader may skip what it does not want
                _ if r.chance(0.1) => {
                    let by = self.items[i].end - self.items[i].at;
                    self.stream.offset_bit_cursor(by as i128);
                }
                _ => self.read(i, &mut r)?,
            }
            self.at_end(i)?;
        }
        self.note(upto as u64);
        self.resume();
        Ok(out)
    }
    /// one item on its own
    fn one(&mut self, s: &Step) -> Result<(), Viol> {
        if self.items.is_empty() {
            return Ok(());
        }
        let mut r = Rng::new(s.get("seed") as u64);
        let i = s.get("n") as usize % self.items.len();
        let it = self.items[i].clone();
        match it.what {
            What::Init { .. } => return Ok(()),
            What::Frame { c, hdr, pcm, .. } => {
                let Some(h) = self.headers.get(hdr) else { fail!("headers-lost", "no header {hdr} of {}", self.frames) };
                self.stream.set_bit_cursor(h.bit_cursor);
                self.headers.set_cursor(hdr as u32);
                let mut d = FrameCodec::new();
                if !h.is_init {
                    for k in 0..3 {
                        d.sample_history_mut().push(h.stack_history[k]);
                    }
                    *d.state_mut() = CodecState::Decoding;
                }
                let n = d.decode_frame(&mut self.stream, &mut self.headers);
                if n != Some(pcm.len()) {
                    fail!("samples", "item {i} on its own: decode_frame returns {n:?} for {} samples of track {c}", pcm.len());
                }
                let got: Vec<f32> = d.buffered_channel().iter().copied().collect();
                self.judge(i, c, &pcm, &got)?;
                if self.headers.next().map(|h| hdr_of(&h)) != self.headers.get(hdr + 1).map(|h| hdr_of(&h)) {
                    fail!("header-cursor", "after header {hdr} the next one does not follow");
                }
            }
            _ => {
                self.stream.set_bit_cursor(it.at);
                self.read(i, &mut r)?;
            }
        }
        self.stream.set_bit_cursor(it.end);
        self.note(i as u64);
        self.resume();
        Ok(())
    }
    fn store(&mut self, s: &Step) -> Result<(), Viol> {
        let io = io_of(s);
        let (sink, st) = Sink::new(&io);
        // the parts in the order AdhocCodec stores them
        let r = {
            use std::io::Write;
            let mut sink = sink;
            bincode::serialize_into(&mut sink, &(&self.headers, &self.stream)).is_ok() && sink.flush().is_ok()
        };
        let st = st.borrow();
        add(&mut self.fired[0], &st.fired);
        if r {
            self.saved = Some((st.delivered.clone(), self.items.clone(), self.frames, self.furthest));
        }
        let (a, b) = (bincode::serialized_size(&self.headers).unwrap_or(0) * 8, self.headers.calculate_weight_upperbound());
        if a > b {
            fail!("weight", "{} headers take {a} bits, calculate_weight_upperbound() says {b}", self.headers.len());
        }
        Ok(())
    }
    /// the recorder dies; what was stored last is what there is
    fn crash(&mut self, s: &Step) -> Result<(), Viol> {
        let Some((file, items, frames, furthest)) = self.saved.clone() else { return Ok(()) };
        let mut io = io_of(s);
        io.fail = -1;
        let (src, st) = Source::new(&file, &io);
        let r = bincode::deserialize_from::<_, (FrameHeaders, AudioStream)>(src);
        add(&mut self.fired[1], &st.borrow().fired);
        let Ok((h, a)) = r else { fail!("restore", "what was stored in {} bytes cannot be read back", file.len()) };
        self.headers = h;
        self.stream = a;
        self.items = items;
        self.frames = frames;
        self.furthest = furthest;
        self.marks.clear();
        if self.stream.bit_cursor() != self.end() || self.stream.len() as u128 != self.end() {
            fail!("restore", "stored at bit {}, restored at bit {}", self.end(), self.stream.bit_cursor());
        }
        for c in 0..self.tracks.len() {
            self.tracks[c] = FrameCodec::new();
            self.fresh[c] = true;
            let at = self.end();
            self.items.push(Item { at, end: at, what: What::Init { c } });
        }
        Ok(())
    }
    fn list(&mut self, s: &Step) -> Result<(), Viol> {
        let mut r = Rng::new(s.get("seed") as u64);
        let h = Hdr {
            exponent: r.below(16) as u8,
            size: r.u64() as u16,
            bit_cursor: (r.u64() >> r.below(64)) as u128,
            is_init: r.chance(0.5),
            history: [r.u64() as i16, r.u64() as i16, r.u64() as i16],
        };
        let raw = || FrameHeader { exponent: h.exponent, size: h.size, bit_cursor: h.bit_cursor, is_init: h.is_init, stack_history: h.history };
        let len = self.model.len();
        match s.get("kind") {
            // append
            0 => {
                self.list.set_cursor(len as u32);
                for k in 0..s.opt("n", 1).clamp(1, 70_000) {
                    let mut h = h.clone();
                    h.bit_cursor = (h.bit_cursor >> 1) + k as u128;
                    h.history[k as usize % 3] ^= k as i16;
                    h.exponent ^= k as u8 & 15;
                    h.is_init ^= k % 5 == 1;
                    self.list.push(FrameHeader { exponent: h.exponent, size: h.size, bit_cursor: h.bit_cursor, is_init: h.is_init, stack_history: h.history });
                    self.model.push(h);
                }
            }
            // replace one
            1 if len > 1 => {
                let k = 1 + s.get("n") as usize % (len - 1);
                self.list.set_cursor(k as u32);
                self.list.push(raw());
                self.model[k] = h.clone();
            }
            // replace some in a row
            2 if len > 1 => {
                let k = 1 + s.get("n") as usize % (len - 1);
                self.list.set_cursor(k as u32);
                for k in k..len {
                    self.list.push(raw());
                    self.model[k] = h.clone();
                }
            }
            3 => {
                let k = s.get("n") as usize % (len + 1);
                self.list.set_cursor(k as u32);
                let got: Vec<Hdr> = self.list.by_ref().map(|h| hdr_of(&h)).collect();
                if got != self.model[k..] {
                    fail!("header-list", "from {k} the list of {len} headers goes on with {} headers, or with other ones", got.len());
                }
            }
            4 => {
                self.list.reset();
                let got = self.list.next().map(|h| hdr_of(&h));
                if got.as_ref() != self.model.first() {
                    fail!("header-list", "the first of {len} headers is {:?}, and {got:?} after reset()", self.model.first());
                }
            }
            _ => {}
        }
        if self.list.len() != self.model.len() {
            fail!("header-list", "{} headers were pushed, there are {}", self.model.len(), self.list.len());
        }
        for (k, m) in self.model.iter().enumerate() {
            let got = self.list.get(k).map(|h| hdr_of(&h));
            if got.as_ref() != Some(m) {
                fail!("header-list", "header {k} of {} is {m:?} and comes back as {got:?}", self.model.len());
            }
        }
        if self.list.get(self.model.len()).is_some() {
            fail!("header-list", "there is a header behind the last");
        }
        Ok(())
    }
    /// the samples a codec predicts from: a stack that forgets all but the last four
    fn past(&mut self, s: &Step) -> Result<(), Viol> {
        let mut r = Rng::new(s.get("seed") as u64);
        let m = &mut self.past_model;
        for k in 0..s.opt("n", 1).clamp(1, 40) {
            let h = self.past.sample_history_mut();
            match r.below(s.opt("x", 4).max(2) as u64) {
                0 => {
                    if let Some(want) = m.pop() {
                        let got = h.pop();
                        if got != want {
                            fail!("history", "step {k}: pop gives {got}, {want} was pushed last");
                        }
                    }
                }
                _ => {
                    let x = r.u64() as i16;
                    h.push(x);
                    m.push(x);
                    if m.len() > 4 {
                        m.remove(0);
                    }
                }
            }
            if h.len() != m.len() || h.is_empty() != m.is_empty() {
                fail!("history", "step {k}: {m:?} are in the history, its length is {}, it is empty: {}", h.len(), h.is_empty());
            }
            for j in 1..=m.len() {
                if h.prev(j as u32) != m[m.len() - j] {
                    fail!("history", "step {k}: {m:?} are in the history, prev({j}) is {}", h.prev(j as u32));
                }
            }
            if k % 16 == 7 && r.chance(0.1) {
                self.past.init();
                m.clear();
                if self.past.sample_history_mut().len() != 0 {
                    fail!("history", "init() leaves {} samples in the history", self.past.sample_history_mut().len());
                }
            }
        }
        Ok(())
    }
    /// each track again, alone on a stream of its own
    fn alone(&mut self, played: &[Vec<f32>]) -> Result<(), Viol> {
        for c in 0..self.tracks.len() {
            let (mut s, mut h) = (AudioStream::new(), FrameHeaders::new());
            let mut e = FrameCodec::new();
            let mut k = 0;
            let mut inits = vec![];
            for (i, it) in self.items.iter().enumerate() {
                match &it.what {
                    What::Init { c: d } if *d == c => {
                        e.init();
                        inits.push(k);
                    }
                    What::Frame { c: d, pcm, hdr, first } if *d == c => {
                        let at = s.bit_cursor();
                        e.encode_frame(&mut s, &mut h, pcm);
                        let (a, b) = (s.bit_cursor() - at, it.end - it.at);
                        let (x, y) = (h.get(k), self.headers.get(*hdr));
                        let key = |h: &Option<FrameHeader>| h.as_ref().map(|h| (h.exponent, h.size, h.is_init, (!first).then_some(h.stack_history)));
                        if a != b || key(&x) != key(&y) {
                            fail!("not-alone", "item {i}, a frame of track {c}: {b} bits and header {:?} among the others, {a} bits and header {:?} alone", key(&y), key(&x));
                        }
                        k += 1;
                    }
                    _ => {}
                }
            }
            s.seek_start();
            h.reset();
            let mut d = FrameCodec::new();
            let mut out = vec![];
            for n in 0..k {
                for _ in inits.iter().filter(|&&x| x == n) {
                    d.init();
                }
                d.decode_frame(&mut s, &mut h);
                out.extend(d.buffered_channel_mut().drain(..));
            }
            if out.len() != played[c].len() || out.iter().zip(&played[c]).any(|(a, b)| a.to_bits() != b.to_bits()) {
                fail!("not-alone", "track {c} sounds different when it is alone");
            }
        }
        Ok(())
    }
    fn step(&mut self, s: &Step) -> Result<(), Viol> {
        match s.op {
            "frame" => self.frame(s)?,
            "raw" => {
                // long runs, so that frames fall on every alignment
                self.raw(s)?;
            }
            "reinit" => {
                let c = s.get("s") as usize % self.tracks.len();
                self.tracks[c].init();
                self.fresh[c] = true;
                let at = self.end();
                self.items.push(Item { at, end: at, what: What::Init { c } });
            }
            "mark" => self.marks.push(Mark { items: self.items.len(), frames: self.frames, at: self.end(), tracks: self.tracks.clone(), fresh: self.fresh.clone() }),
            "back" => {
                if self.marks.is_empty() {
                    return Ok(());
                }
                let k = s.get("n") as usize % self.marks.len();
                self.marks.truncate(k + 1);
                let m = &self.marks[k];
                self.items.truncate(m.items);
                self.frames = m.frames;
                self.tracks = m.tracks.clone();
                self.fresh = m.fresh.clone();
                if m.at == 0 && s.get("x") == 1 {
                    self.stream.seek_start();
                } else {
                    self.stream.set_bit_cursor(m.at);
                }
                self.headers.set_cursor(self.frames as u32);
            }
            "play" => {
                self.play(s)?;
            }
            "one" => self.one(s)?,
            "store" => self.store(s)?,
            "crash" => self.crash(s)?,
            "hdr" => self.list(s)?,
            "past" => self.past(s)?,
            "sinfo" => {
                let info = (s.get("kind") != 0).then(|| StreamInfo::new(s.get("rate") as u32, s.get("ch") as u32));
                self.stream.set_info(info);
                let got = self.stream.info();
                let pair = |i: Option<StreamInfo>| i.map(|i| (i.frequency(), i.channels()));
                if pair(got) != pair(info) {
                    fail!("info", "set to {:?}, read as {:?}", pair(info), pair(got));
                }
            }
            _ => {}
        }
        Ok(())
    }
}
fn name(w: &What) -> &'static str {
    match w {
        What::Frame { .. } => "a frame",
        What::Init { .. } => "a fresh start",
        What::Bits { .. } => "bits",
        What::Num { .. } => "a number",
        What::Rice { .. } | What::RiceDiv { .. } => "a compressed value",
        What::Capped { .. } => "a capped value",
    }
}
fn add(a: &mut Fired, b: &Fired) {
    a.short += b.short;
    a.intr += b.intr;
    a.hard += b.hard;
    a.zero += b.zero;
    a.seek += b.seek;
    a.ops += b.ops;
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let Some(cfg) = plan.steps.iter().find(|s| s.op == "frames") else { return o };
    let tracks = cfg.opt("n", 1).clamp(1, 64) as usize;
    let mut sim = Sim {
        stream: AudioStream::new(),
        headers: FrameHeaders::new(),
        tracks: (0..tracks).map(|_| FrameCodec::new()).collect(),
        fresh: vec![true; tracks],
        items: vec![],
        frames: 0,
        furthest: 0,
        marks: vec![],
        saved: None,
        list: FrameHeaders::new(),
        model: vec![],
        past: FrameCodec::new(),
        past_model: vec![],
        fired: Default::default(),
        trace: 0,
    };
    let mut last = 0;
    let mut r = Ok(());
    let mut us = 0u64;
    for s in &plan.steps {
        let h = mix2(mix2(hash_str(s.op), 64 - (s.get("n").max(0) as u64).leading_zeros() as u64), (s.get("kind") as u64) << 12 | (s.get("sig") as u64) << 6 | (s.get("val") as u64) << 1 | (s.opt("fail", -1) >= 0) as u64);
        o.shape = mix2(o.shape, h);
        o.edges.push(mix2(last, h));
        last = h;
        *o.stats.entry(format!("op_{}", s.op)).or_insert(0) += 1;
        us += if s.op == "frame" { s.get("n").max(0) as u64 * 125 } else { 0 };
        if verbose {
            o.log.push(format!("{} {:?} at bit {}", s.op, s.kv, sim.end()));
        }
        r = sim.step(s);
        if r.is_err() {
            break;
        }
        crate::RUN_NO.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
    if r.is_ok() {
        r = sim.play(&Step::new(0, "play", &[("seed", plan.index as i64 & 0xffff)])).and_then(|p| sim.alone(&p));
    }
    o.nontrivial = sim.items.len() > 1;
    fault_stats(&mut o, "write", &sim.fired[0], false);
    fault_stats(&mut o, "read", &sim.fired[1], false);
    *o.stats.entry("sim_audio_us".into()).or_insert(0) += us;
    o.trace = mix2(o.trace, sim.trace);
    o.viol = r.err();
    o
}

//! C21: what a session costs, on the cost clock, when it is longer, in larger chunks or in more channels.
//! C22: what a recording weighs, against fixed bounds and against the code as first published.
use crate::exec::Outcome;
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix2};
use crate::sig;
use crate::skew;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use seams::{alloc, meter};
use std::io::Cursor;

fn fail(o: &mut Outcome, class: &str, d: String) {
    o.viol = Some((class.into(), d));
}
fn note(o: &mut Outcome, last: &mut u64, s: &Step, x: u64) {
    let h = mix2(mix2(hash_str(s.op), 64 - (s.get("n") as u64).leading_zeros() as u64), mix2(x, s.get("sig") as u64));
    o.shape = mix2(o.shape, h);
    o.edges.push(mix2(*last, h));
    *last = h;
}

// ---------------------------------------------------------------------------------- C21

pub enum Codec {
    A(AdhocCodec),
    W(WavCodec),
}
impl Codec {
    pub fn any(&mut self) -> &mut dyn Streamable {
        match self {
            Codec::A(c) => c,
            Codec::W(c) => c,
        }
    }
    fn save(&self) -> Option<Vec<u8>> {
        let mut b = vec![];
        match self {
            Codec::A(c) => c.save_to(&mut b)?,
            Codec::W(c) => c.save_to(&mut b).ok()?,
        }
        Some(b)
    }
    fn load(&self, b: &[u8]) -> Option<Codec> {
        Some(match self {
            Codec::A(_) => Codec::A(AdhocCodec::load(b)?),
            Codec::W(_) => Codec::W(WavCodec::load(Cursor::new(b)).ok()?),
        })
    }
    pub fn rewind(&mut self) {
        match self {
            Codec::A(c) => c.init(),
            Codec::W(c) => Streamable::seek(c, SeekFrom::Start(0)),
        }
    }
}
const PHASES: [&str; 6] = ["encode", "decode", "save", "load", "seek", "memory"];
/// the same session with `rounds` rounds of chunks `len` times as long in `wide` times the channels
fn session(cfg: &Step, chunks: &[&Step], pulls: &[i64], rounds: i64, len: i64, wide: i64) -> Option<([u64; 6], u64)> {
    let how = cfg.get("how");
    let ch = (cfg.opt("ch", 1).clamp(1, 4096) * wide) as usize;
    let info = StreamInfo::new(cfg.get("rate") as u32, ch as u32);
    let fresh = || match cfg.get("s") {
        1 => Codec::W(WavCodec::new(info)),
        _ => Codec::A(AdhocCodec::new().with_compression_level(cfg.get("level").clamp(0, 10) as u32).with_info(info)),
    };
    let audio: Vec<Vec<f32>> = chunks
        .iter()
        .map(|s| sig::gen(s.get("sig"), s.get("seed") as u64, s.opt("amp", 1_000_000), 0, (s.get("n").clamp(0, 70_000) * len) as usize, ch))
        .collect();
    let total: u64 = audio.iter().map(|a| a.len() as u64).sum::<u64>() * rounds as u64;
    let live = alloc::LIVE.load(std::sync::atomic::Ordering::Relaxed);
    alloc::PEAK.store(live, std::sync::atomic::Ordering::Relaxed);
    let mut at = [0u64; 6];
    let mut c = fresh();
    let record = |c: &mut Codec, at: &mut u64| {
        for _ in 0..rounds {
            for a in &audio {
                *at += meter::cost(|| c.any().encode(a)).1;
            }
        }
    };
    record(&mut c, &mut at[0]);
    if how & 1 != 0 {
        c.rewind();
        record(&mut c, &mut at[0]);
    }
    let (bytes, x) = meter::cost(|| c.save());
    at[2] += x;
    let bytes = bytes?;
    let play = |c: &mut Codec, at: &mut [u64; 6]| {
        let widest = pulls.iter().copied().max().unwrap_or(512);
        let mut buf = vec![0f32; widest as usize * ch];
        let mut got = 0u64;
        for k in 0.. {
            let n = pulls.get(k % pulls.len().max(1)).copied().unwrap_or(512) as usize * ch;
            let (r, x) = meter::cost(|| c.any().decode(&mut buf[..n]));
            at[1] += x;
            match r {
                Some(n) => got += n as u64,
                None => break,
            }
        }
        got
    };
    if how & 2 != 0 {
        let (l, x) = meter::cost(|| c.load(&bytes));
        c = l?;
        at[3] += x;
    } else {
        c.rewind();
    }
    let mut delivered = play(&mut c, &mut at);
    if how & 4 != 0 {
        let rate = cfg.get("rate").max(1) as u64;
        let ms = total / ch as u64 / 2 * 1000 / rate;
        at[4] += meter::cost(|| c.any().seek(SeekFrom::Start(ms))).1;
        play(&mut c, &mut at);
    }
    if how & 8 != 0 {
        c.rewind();
        delivered = play(&mut c, &mut at);
    }
    at[5] = (alloc::PEAK.load(std::sync::atomic::Ordering::Relaxed) - live) as u64;
    Some((at, if delivered == total { total } else { u64::MAX }))
}
pub fn cost(plan: &Plan, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let Some(cfg) = plan.steps.iter().find(|s| s.op == "cost") else { return o };
    let chunks: Vec<&Step> = plan.steps.iter().filter(|s| s.op == "enc").collect();
    let pulls: Vec<i64> = plan.steps.iter().filter(|s| s.op == "dec").map(|s| s.get("buf").clamp(1, 1 << 20)).collect();
    let mut last = 0;
    note(&mut o, &mut last, cfg, mix2(cfg.get("how") as u64, mix2(cfg.get("x") as u64, cfg.get("s") as u64)));
    for s in &chunks {
        note(&mut o, &mut last, s, 0);
    }
    for p in &pulls {
        o.shape = mix2(o.shape, 64 - (*p as u64).leading_zeros() as u64);
    }
    let rounds = cfg.opt("lo", 1).clamp(1, 100_000);
    let k = cfg.opt("n", 8).clamp(2, 64);
    let (name, big) = match cfg.get("x") {
        0 => ("rounds of chunks", (rounds * k, 1, 1)),
        1 => ("frames per chunk", (rounds, k, 1)),
        _ => ("channels", (rounds, 1, k)),
    };
    let (Some((a, na)), Some((b, nb))) =
        (session(cfg, &chunks, &pulls, rounds, 1, 1), session(cfg, &chunks, &pulls, big.0, big.1, big.2))
    else {
        return o;
    };
    o.nontrivial = true;
    *o.stats.entry("cost_clock_ticks".into()).or_insert(0) += a[..5].iter().sum::<u64>() + b[..5].iter().sum::<u64>();
    *o.stats.entry(format!("axis_{}", name.replace(' ', "_"))).or_insert(0) += 1;
    if na != u64::MAX && nb != u64::MAX {
        *o.stats.entry("samples_in_large_sessions".into()).or_insert(0) += nb;
    }
    for i in 0..6 {
        o.trace = mix2(o.trace, if i < 5 { mix2(a[i], b[i]) } else { 0 });
        let (slack, factor) = if i == 5 { (1 << 19, 6) } else { (100_000, 3) };
        if verbose {
            o.log.push(format!("{}: {} -> {} ({:.2} times, {:.2} expected)", PHASES[i], a[i], b[i], b[i] as f64 / a[i].max(1) as f64, k));
        }
        if 2 * b[i] > factor * k as u64 * a[i] + slack {
            fail(&mut o, &format!("{}-cost", PHASES[i]), format!("{k} times the {name}: {} costs {} instead of {}, {:.1} times as much", PHASES[i], b[i], a[i], b[i] as f64 / a[i].max(1) as f64));
            return o;
        }
    }
    o
}

// ---------------------------------------------------------------------------------- C22

pub fn size(plan: &Plan, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let Some(cfg) = plan.steps.iter().find(|s| s.op == "size") else { return o };
    let ch = cfg.opt("ch", 1).clamp(1, 65535) as usize;
    let (rate, level) = (cfg.get("rate") as u32, cfg.get("level").clamp(0, 10) as u32);
    let mut last = 0;
    note(&mut o, &mut last, cfg, mix2(ch as u64, level as u64));
    let (mut chunks, mut input, mut typical) = (vec![], vec![], true);
    for s in plan.steps.iter().filter(|s| s.op == "enc") {
        let n = s.get("n").max(0) as usize;
        let (kind, amp) = (s.get("sig"), s.opt("amp", 1_000_000));
        let mut v = sig::gen(kind, s.get("seed") as u64, amp, input.len() / ch, n, ch);
        input.extend_from_slice(&v);
        if n == 0 {
            // less than a frame
            v.resize(s.get("part").clamp(0, ch as i64 - 1) as usize, 0.5);
        }
        typical &= n == 0 || n >= 256 && (matches!(kind, 0 | 1 | 19) || kind == 3 && amp <= 5_000);
        chunks.push(v);
        note(&mut o, &mut last, s, 0);
        *o.stats.entry("frames_encoded".into()).or_insert(0) += n as u64;
        if rate > 0 {
            *o.stats.entry("sim_audio_us".into()).or_insert(0) += n as u64 * 1_000_000 / rate as u64;
        }
    }
    o.nontrivial = chunks.len() > 1;
    *o.stats.entry("deliveries_without_a_frame".into()).or_insert(0) += chunks.iter().filter(|c| c.len() < ch).count() as u64;
    let Some(b) = skew::newn::write(ch, rate, level, &chunks) else { return o };
    let (bits, n) = (b.len() as u64 * 8, input.len() as u64);
    o.trace = mix2(bits, n);
    let headers: u64 = chunks.iter().map(|c| (c.len() / ch).div_ceil(65535) as u64 * ch as u64).sum();
    let most = 18 * n + 160 * headers + 4096;
    if verbose {
        o.log.push(format!("{n} samples, {headers} frame headers: {bits} bits, at most {most}; typical audio: {typical}"));
    }
    if bits > most {
        fail(&mut o, "inflated", format!("{n} samples in {headers} stretches take {bits} bits"));
        return o;
    }
    *o.stats.entry("worst_case_bound_checked".into()).or_insert(0) += 1;
    if typical && n > 0 {
        *o.stats.entry("typical_audio_checked".into()).or_insert(0) += 1;
        if bits > 16 * n * 4 / 5 + 4096 + 133 * headers.saturating_sub(n / 256) {
            fail(&mut o, "savings", format!("{n} samples of typical audio take {bits} bits, {:.2} per sample", bits as f64 / n as f64));
            return o;
        }
    }
    // the first published code, given the very 16-bit values this one has stored (it truncates, so in the middle of a step)
    let Some((_, _, out)) = skew::newn::read(&b, ch, input.len()) else { return o };
    if out.len() != input.len() {
        return o;
    }
    let s = (1u32 << level) as f64;
    let q: Vec<f32> = out.iter().map(|y| (*y as f64 / s * 32767.0).round() as f32).collect();
    let same: Vec<f32> = q.iter().map(|k| ((*k as f64 + 0.5 * k.signum() as f64 * (*k != 0.0) as i32 as f64) / 32767.0) as f32).collect();
    let mut at = 0;
    let old_chunks: Vec<Vec<f32>> = chunks.iter().filter(|c| c.len() >= ch).map(|c| { at += c.len(); same[at - c.len()..at].to_vec() }).collect();
    let old = skew::old_try(|| skew::oldn::write(ch, rate, 0, &old_chunks));
    let read = old.as_ref().and_then(|b| skew::old_try(|| skew::oldn::read(b, ch, input.len())));
    if let (Some(old), Some((_, _, got))) = (old, read) {
        if got.len() == q.len() && got.iter().zip(&q).all(|(g, k)| (g * 32767.0 - k).abs() < 0.01) && skew::tame(&got, ch, 0) {
            *o.stats.entry("compared_with_first_release".into()).or_insert(0) += 1;
            let ob = old.len() as u64 * 8;
            if bits > ob {
                *o.stats.entry("larger_than_first_release".into()).or_insert(0) += 1;
            }
            if verbose {
                o.log.push(format!("{ob} bits in the first release"));
            }
            if bits > ob + ob / 100 + 1024 {
                fail(&mut o, "grown", format!("{n} samples take {bits} bits; the first release stores the same values in {ob}"));
                return o;
            }
        }
    }
    // playing and saving again does not make it larger
    if let Some(again) = skew::newn::replayed(&b, ch) {
        if again.len() > b.len() + 64 {
            fail(&mut o, "grown-by-playing", format!("saved again after playing: {} bytes, {} before", again.len(), b.len()));
        }
    }
    o
}

//! C23: the same round of work again and again on one codec -- recording, saving to and loading from a medium that
//! may fail, playing, seeking.  What is held, and what a round costs, must not creep.
use crate::econ::Codec;
use crate::exec::{fault_stats, io_of, Outcome};
use crate::io::{Fired, Sink, Source};
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix2};
use crate::sig;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, WavCodec};
use seams::{alloc, meter};
use std::sync::atomic::Ordering::Relaxed;

const WHAT: [&str; 5] = ["encode", "decode", "save", "load", "seek"];

#[derive(PartialEq, Clone, Copy)]
enum Mode {
    Rec,
    Fresh,
    Play,
}
fn add(a: &mut Fired, b: &Fired) {
    a.short += b.short;
    a.intr += b.intr;
    a.hard += b.hard;
    a.zero += b.zero;
    a.seek += b.seek;
    a.ops += b.ops;
}
fn live() -> usize {
    alloc::LIVE.load(Relaxed)
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let Some(cfg) = plan.steps.iter().find(|s| s.op == "cycle") else { return o };
    let steps: Vec<&Step> = plan.steps.iter().filter(|s| s.op != "cycle").collect();
    let ch = cfg.opt("ch", 1).clamp(1, 4096) as usize;
    let rate = cfg.opt("rate", 8000).clamp(0, u32::MAX as i64) as u32;
    let level = cfg.get("level").clamp(0, 10) as u32;
    let rounds = cfg.opt("n", 8).clamp(8, 200) as usize;
    let wav = cfg.get("s") == 1;
    let info = StreamInfo::new(rate, ch as u32);
    let mut last = 0;
    for s in plan.steps.iter() {
        let h = mix2(mix2(hash_str(s.op), 64 - (s.get("n").max(s.get("buf")) as u64).leading_zeros() as u64), (s.get("kind") as u64) << 8 | (s.get("sig") as u64) << 4 | (s.get("fail") >= 0) as u64);
        o.shape = mix2(o.shape, h);
        o.edges.push(mix2(last, h));
        last = h;
    }
    let audio: Vec<Vec<f32>> = steps
        .iter()
        .map(|s| match s.op {
            "enc" => sig::gen(s.get("sig"), s.get("seed") as u64, s.opt("amp", 1_000_000), 0, s.get("n").clamp(0, 70_000) as usize, ch),
            _ => vec![],
        })
        .collect();
    let widest = steps.iter().filter(|s| matches!(s.op, "dec" | "drain")).map(|s| s.opt("buf", 512).clamp(0, 1 << 20)).max().unwrap_or(0) as usize;
    let mut buf = vec![0f32; widest.max(ch)];
    let mut held = Vec::with_capacity(rounds);
    let mut peak = Vec::with_capacity(rounds);
    let mut cost: Vec<[u64; 5]> = Vec::with_capacity(rounds);
    let (mut saved, mut failed_saves, mut loaded, mut failed_loads) = (0u64, 0u64, 0u64, 0u64);
    let mut file: Vec<u8> = vec![];
    let mut trace = 0u64;
    let mut fired = [Fired::default(), Fired::default()];
    let mut buffered = false;
    // lazily made things of the runtime are not the codec's
    {
        let mut c = AdhocCodec::new().with_info(info);
        c.init();
        let _ = c.save_to(std::io::sink());
        let _ = AdhocCodec::load(&[0u8; 3][..]);
    }
    let before = live();
    let mut c = match wav {
        true => Codec::W(WavCodec::new(info)),
        false => Codec::A(AdhocCodec::new().with_compression_level(level).with_info(info)),
    };
    for _ in 0..rounds {
        alloc::PEAK.store(live(), Relaxed);
        let mut at = [0u64; 5];
        c.rewind();
        let mut mode = Mode::Fresh;
        let mut fit = true;
        for (s, a) in steps.iter().zip(&audio) {
            match s.op {
                "enc" if mode != Mode::Play && (mode == Mode::Rec || !a.is_empty()) => {
                    at[0] += meter::cost(|| c.any().encode(a)).1;
                    mode = Mode::Rec;
                    fit = true;
                }
                "rewind" => {
                    c.rewind();
                    mode = Mode::Fresh;
                }
                "dec" if mode != Mode::Rec || wav => {
                    let n = (s.opt("buf", 512).clamp(0, 1 << 20) as usize).min(buf.len());
                    let (r, x) = meter::cost(|| c.any().decode(&mut buf[..n]));
                    at[1] += x;
                    trace = mix2(trace, r.unwrap_or(0) as u64);
                    mode = Mode::Play;
                }
                "drain" if mode != Mode::Rec || wav => {
                    let n = (s.opt("buf", 512).clamp(1, 1 << 20) as usize).max(ch).min(buf.len());
                    while let (Some(_), x) = meter::cost(|| c.any().decode(&mut buf[..n])) {
                        at[1] += x;
                    }
                    mode = Mode::Play;
                }
                "info" if mode == Mode::Fresh => {
                    if let Codec::A(c) = &mut c {
                        c.set_info(info);
                    }
                }
                "seek" => {
                    let ms = s.get("ms") as u64;
                    at[4] += meter::cost(|| c.any().seek(SeekFrom::Start(ms))).1;
                    mode = if ms == 0 { Mode::Fresh } else { Mode::Play };
                }
                "save" => {
                    let io = io_of(s);
                    let (sink, st) = Sink::new(&io);
                    let (ok, x) = meter::cost(|| match &c {
                        Codec::A(c) => c.save_to(sink).is_some(),
                        Codec::W(c) => c.save_to(sink).is_ok(),
                    });
                    at[2] += x;
                    trace = mix2(trace, ok as u64);
                    add(&mut fired[0], &st.borrow().fired);
                    buffered |= io.buf >= 0;
                    if ok {
                        saved += 1;
                        file = st.borrow().delivered.clone();
                        fit = true;
                    } else {
                        failed_saves += 1;
                    }
                }
                "load" if fit && !file.is_empty() => {
                    let io = io_of(s);
                    let (src, st) = Source::new(&file, &io);
                    let (r, x) = meter::cost(|| match wav {
                        true => WavCodec::load(src).ok().map(Codec::W),
                        false => AdhocCodec::load(src).map(Codec::A),
                    });
                    at[3] += x;
                    trace = mix2(trace, r.is_some() as u64 + 7);
                    add(&mut fired[1], &st.borrow().fired);
                    match r {
                        Some(d) => {
                            loaded += 1;
                            c = d;
                            mode = Mode::Play;
                        }
                        None => failed_loads += 1,
                    }
                }
                _ => {}
            }
        }
        held.push(live() - before - file.capacity());
        peak.push(alloc::PEAK.load(Relaxed) - before);
        cost.push(at);
        crate::RUN_NO.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
    drop(c);
    let left = live() as i64 - before as i64 - file.capacity() as i64;
    for (k, v) in [("rounds_on_one_codec", rounds as u64), ("saves", saved), ("failed_saves", failed_saves), ("loads", loaded), ("failed_loads", failed_loads), ("cost_clock_ticks", cost.iter().flatten().sum())] {
        if v > 0 {
            *o.stats.entry(k.into()).or_insert(0) += v;
        }
    }
    for s in &steps {
        *o.stats.entry(format!("op_{}", s.op)).or_insert(0) += rounds as u64;
    }
    fault_stats(&mut o, "write", &fired[0], buffered);
    fault_stats(&mut o, "read", &fired[1], false);
    let frames: usize = audio.iter().map(|a| a.len() / ch).sum();
    *o.stats.entry("sim_audio_us".into()).or_insert(0) += (frames * rounds) as u64 * 1_000_000 / rate.max(1) as u64;
    o.trace = mix2(o.trace, trace);
    o.nontrivial = steps.len() > 1;
    if verbose {
        o.log.push(format!("held {held:?}"));
        o.log.push(format!("peak {peak:?}"));
        o.log.push(format!("cost {cost:?}"));
        o.log.push(format!("left {left}"));
    }
    // without dither every round is the same to the bit; with it, sizes and so capacities differ a little
    let exact = wav || level == 0;
    let half = rounds / 2;
    let most = |v: &[usize]| v.iter().copied().max().unwrap_or(0);
    for (name, v) in [("held", &held), ("peak", &peak)] {
        let (a, b) = (most(&v[2..half]), most(&v[half..]));
        if if exact { b > a + 64 } else { b > 2 * a + a / 4 + 8192 } {
            o.viol = Some((format!("memory-{name}"), format!("rounds 3 to {half} of the same work: {a} bytes, rounds {} to {rounds}: {b} bytes ({name})", half + 1)));
            return o;
        }
    }
    for (i, name) in WHAT.iter().enumerate() {
        let most = |v: &[[u64; 5]]| v.iter().map(|x| x[i]).max().unwrap_or(0);
        let (a, b) = (most(&cost[2..half]), most(&cost[half..]));
        if if exact { b > a + a / 10 + 5_000 } else { b > 2 * a + 50_000 } {
            o.viol = Some((format!("{name}-cost"), format!("{name} costs {a} steps in rounds 3 to {half} and {b} in rounds {} to {rounds} of the same work", half + 1)));
            return o;
        }
    }
    if left > 64 {
        o.viol = Some(("leak".into(), format!("{left} bytes are still held when the codec is gone")));
    }
    o
}

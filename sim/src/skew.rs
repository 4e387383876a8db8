//! C19: a node running the code as first published (crate adhoc_old) and a node running this tree exchange files.
use crate::exec::{hash_f32, seek_targets, Outcome, STEP};
use crate::plan::{Plan, Step};
use crate::rng::{hash_str, mix2};
use crate::sig;
use adhoc_audio as new;
use adhoc_old as old;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! node {
    ($m:ident, $k:ident) => {
        pub mod $m {
            use super::$k as k;
            use k::{AdhocCodec, SeekFrom, StreamInfo, Streamable};
            pub fn write(ch: usize, rate: u32, level: u32, chunks: &[Vec<f32>]) -> Option<Vec<u8>> {
                let mut c = AdhocCodec::new().with_compression_level(level).with_info(StreamInfo::new(rate, ch as u32));
                for v in chunks {
                    Streamable::encode(&mut c, v)?;
                }
                let mut b = vec![];
                c.save_to(&mut b)?;
                Some(b)
            }
            fn pull(c: &mut AdhocCodec, buf: usize, limit: usize) -> Vec<f32> {
                let mut out = vec![];
                let mut b = vec![0f32; buf];
                while let Some(n) = Streamable::decode(c, &mut b) {
                    out.extend_from_slice(&b[..n]);
                    if out.len() >= limit {
                        break;
                    }
                }
                out
            }
            pub fn read(bytes: &[u8], ch: usize, limit: usize) -> Option<(usize, usize, Vec<f32>)> {
                let mut c = AdhocCodec::load(bytes)?;
                let i = Streamable::info(&c);
                let (r, n) = (i.frequency(), i.channels());
                Some((r, n, pull(&mut c, 512 * ch, limit + 70_000 * ch)))
            }
            #[allow(dead_code)]
            pub fn replayed(bytes: &[u8], ch: usize) -> Option<Vec<u8>> {
                let mut c = AdhocCodec::load(bytes)?;
                pull(&mut c, 300 * ch, usize::MAX);
                let mut b = vec![];
                c.save_to(&mut b)?;
                Some(b)
            }
            pub fn seek(bytes: &[u8], ms: u64, buf: usize) -> Option<Vec<f32>> {
                let mut c = AdhocCodec::load(bytes)?;
                Streamable::seek(&mut c, SeekFrom::Start(ms));
                let mut b = vec![0f32; buf];
                let n = Streamable::decode(&mut c, &mut b).unwrap_or(0);
                b.truncate(n);
                Some(b)
            }
        }
    };
}
node!(oldn, old);
node!(newn, new);

/// the old node crashes where it crashes; that is its history, not a finding
pub fn old_try<T>(f: impl FnOnce() -> Option<T>) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok().flatten();
    crate::take_panic();
    r
}
pub fn within_bound(out: &[f32], input: &[f32], level: u32) -> bool {
    let s = (1u32 << level) as f64;
    let tol = s * STEP * 1.0005 + if level > 0 { 0.001 } else { 0.0 } + 2e-6;
    out.len() == input.len()
        && out.iter().zip(input).all(|(&y, &x)| x.abs() <= 1.0 && (x as f64 - y as f64).abs() <= tol)
}
/// prediction residuals stay well inside 16 bits
pub fn tame(out: &[f32], ch: usize, level: u32) -> bool {
    let s = (1u32 << level) as f64;
    let q: Vec<f64> = out.iter().map(|y| *y as f64 / s * 32767.0).collect();
    (3 * ch..q.len()).all(|i| {
        let p = 3.0 * q[i - ch] - 3.0 * q[i - 2 * ch] + q[i - 3 * ch];
        (q[i] - p.clamp(-32767.0, 32767.0)).abs() < 32600.0
    })
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let Some(cfg) = plan.steps.iter().find(|s| s.op == "skew") else { return o };
    let ch = cfg.opt("ch", 1).clamp(1, 65535) as usize;
    let (rate, level) = (cfg.get("rate") as u32, cfg.get("level").clamp(0, 10) as u32);
    let mut chunks: Vec<Vec<f32>> = vec![];
    let mut input: Vec<f32> = vec![];
    let mut last = 0;
    let mut edge = |o: &mut Outcome, s: &Step, x: u64| {
        let h = mix2(mix2(hash_str(s.op), 64 - (s.get("n") as u64).leading_zeros() as u64), mix2(x, s.get("sig") as u64));
        o.shape = mix2(o.shape, h);
        o.edges.push(mix2(last, h));
        last = h;
    };
    edge(&mut o, cfg, mix2(ch as u64, level as u64));
    for s in plan.steps.iter().filter(|s| s.op == "enc") {
        let n = s.get("n").max(0) as usize;
        let v = sig::gen(s.get("sig"), s.get("seed") as u64, s.opt("amp", 1_000_000), input.len() / ch, n, ch);
        input.extend_from_slice(&v);
        chunks.push(v);
        edge(&mut o, s, 0);
        *o.stats.entry("frames_encoded".into()).or_insert(0) += n as u64;
        if rate > 0 {
            *o.stats.entry("sim_audio_us".into()).or_insert(0) += n as u64 * 1_000_000 / rate as u64;
        }
    }
    let first = chunks.iter().map(|c| c.len() / ch).find(|n| *n > 0).unwrap_or(0);
    let fail = |o: &mut Outcome, class: &str, d: String| o.viol = Some((class.into(), d));
    let say = |o: &mut Outcome, m: String| {
        if verbose {
            o.log.push(m)
        }
    };

    let old_bytes = old_try(|| oldn::write(ch, rate, level, &chunks));
    let old_read = old_bytes.as_ref().and_then(|b| old_try(|| oldn::read(b, ch, input.len())));
    let domain = match &old_read {
        Some((_, _, out)) => within_bound(out, &input, level) && tame(out, ch, level),
        None => false,
    };
    say(&mut o, format!("old wrote {:?} bytes; in the common domain: {domain}", old_bytes.as_ref().map(|b| b.len())));
    if !domain {
        *o.stats.entry("outside_common_domain".into()).or_insert(0) += 1;
        // the new node must still cope with its own recording
        return o;
    }
    *o.stats.entry("in_common_domain".into()).or_insert(0) += 1;
    o.nontrivial = true;
    let (ob, (orate, och, oout)) = (old_bytes.unwrap(), old_read.unwrap());

    // old writer, new reader
    match newn::read(&ob, ch, input.len()) {
        None => return { fail(&mut o, "old-file-rejected", format!("a {} byte file of the original code does not load", ob.len())); o },
        Some((r, c, out)) => {
            o.trace = mix2(o.trace, hash_f32(&out));
            if (r, c) != (orate, och) {
                return { fail(&mut o, "info", format!("old file: info {r} Hz {c} ch instead of {orate} Hz {och} ch")); o };
            }
            if out != oout {
                let i = out.iter().zip(&oout).position(|(a, b)| a != b);
                return { fail(&mut o, "old-file-differs", format!("old file decodes to {} samples instead of {}; first difference {i:?}", out.len(), oout.len())); o };
            }
            *o.stats.entry("old_files_read".into()).or_insert(0) += 1;
        }
    }
    // new writer, old reader
    let mut nb = None;
    if first >= 3 || input.is_empty() {
        let Some(b) = newn::write(ch, rate, level, &chunks) else {
            return { fail(&mut o, "save-failed", "the new code could not write the recording".into()); o };
        };
        let Some((nr, nc, nout)) = newn::read(&b, ch, input.len()) else {
            return { fail(&mut o, "load-failed", "the new code could not load its own file".into()); o };
        };
        if !tame(&nout, ch, level) {
            // (only a codec that misrepresents a tame recording gets here)
            if within_bound(&nout, &input, level) {
                return o;
            }
        }
        match old_try(|| oldn::read(&b, ch, input.len())) {
            None => return { fail(&mut o, "new-file-rejected", format!("the original code does not load a {} byte file written here", b.len())); o },
            Some((r, c, out)) => {
                if (r, c) != (nr, nc) {
                    return { fail(&mut o, "info", format!("new file: the original code reports {r} Hz {c} ch instead of {nr} Hz {nc} ch")); o };
                }
                if out != nout {
                    let i = out.iter().zip(&nout).position(|(a, b)| a != b);
                    return { fail(&mut o, "new-file-differs", format!("a file written here decodes to {} samples with the original code instead of {}; first difference {i:?}", out.len(), nout.len())); o };
                }
                *o.stats.entry("new_files_read_by_old".into()).or_insert(0) += 1;
            }
        }
        nb = Some((b, nout));
    }
    // seeks on both sides
    for s in plan.steps.iter().filter(|s| s.op == "skewseek") {
        let ms = s.get("ms") as u64;
        let buf = (s.get("buf").clamp(0, 1 << 20) as usize).max(ch * 4);
        let total = input.len() / ch;
        if (rate as u128 * ms as u128) / 1000 >= total as u128 {
            continue;
        }
        edge(&mut o, s, ms.min(64));
        let targets = seek_targets(rate, ms as i128, total, 0);
        let files: Vec<(&[u8], &[f32])> = std::iter::once((&ob[..], &oout[..])).chain(nb.iter().map(|(b, f)| (&b[..], &f[..]))).collect();
        for (bytes, full) in files {
            let at = |v: &[f32]| targets.iter().any(|&p| full[p * ch..].starts_with(v) && (!v.is_empty() || p == total));
            let Some(x) = old_try(|| oldn::seek(bytes, ms, buf)) else { continue };
            if !at(&x) {
                *o.stats.entry("old_seek_astray".into()).or_insert(0) += 1;
                continue;
            }
            let y = newn::seek(bytes, ms, buf).unwrap_or_default();
            if !at(&y) || y.len() < buf.min((total - targets[targets.len() - 1]) * ch) / ch * ch {
                return { fail(&mut o, "seek-differs", format!("seek to {ms} ms delivers {} samples that are not those at frames {targets:?}, where the original code resumes", y.len())); o };
            }
            *o.stats.entry("seeks_compared".into()).or_insert(0) += 1;
        }
    }
    o
}

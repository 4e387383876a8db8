//! Signals the simulated microphone hears.
use crate::fmath::{cos, sin};
use crate::rng::{mix2, Rng};

pub const KINDS: [&str; 20] = [
    "zero", "dc", "sine", "noise", "grid", "gridsmall", "square", "alt", "ramp", "impulse", "walk", "chirp",
    "clip", "wild", "nonfinite", "extremes", "ident", "burst", "mixgrid", "voice",
];
/// kinds of the general mix
pub const NKINDS: i64 = 19;

const G: f32 = 1.0 / 32767.0;
fn grid(k: i64) -> f32 {
    // the f32 nearest to k/32767
    (k as f64 / 32767.0) as f32
}

/// interleaved frames; `start` is the index of the first frame in its recording
pub fn gen(kind: i64, seed: u64, amp_ppm: i64, start: usize, frames: usize, ch: usize) -> Vec<f32> {
    let mut r = Rng::new(mix2(seed, 0x5150 + kind as u64));
    let amp = amp_ppm as f32 / 1e6;
    let n = frames * ch;
    let mut v = Vec::with_capacity(n);
    let freq = 0.001 + 0.4 * r.unit() * r.unit();
    let period = 1 + r.below(40) as usize;
    let step = 0.0001 + 0.01 * r.unit();
    let mut w: Vec<f64> = (0..ch).map(|_| (r.unit() * 2.0 - 1.0) * amp as f64).collect();
    let gap = 1 + r.log(2, 600) as u64;
    for f in 0..frames {
        for c in 0..ch {
            let t = (start + f) as f64 + c as f64 * 7.3;
            let x: f32 = match kind {
                0 => 0.0,
                1 => amp * if c % 2 == 0 { 1.0 } else { -1.0 },
                2 => amp * sin(t * freq) as f32,
                3 => amp * (r.unit() * 2.0 - 1.0) as f32,
                4 => grid(r.range(-32767, 32767)),
                5 => grid(r.range(-300, 300)),
                6 => if ((start + f) / period + c) % 2 == 0 { 1.0 } else { -1.0 },
                7 => if (start + f + c) % 2 == 0 { amp } else { -amp },
                8 => (((t * step) % 2.0) - 1.0) as f32 * amp,
                9 => if r.below(gap) == 0 { grid(r.range(-32767, 32767)) } else { 0.0 },
                10 => {
                    w[c] = (w[c] + (r.unit() - 0.5) * 0.05 * amp as f64).clamp(-1.0, 1.0);
                    w[c] as f32
                }
                11 => amp * sin((t * t) * freq * 0.001) as f32,
                12 => {
                    let y = (3.0 * sin(t * freq)).clamp(-1.0, 1.0);
                    grid((y * 32767.0) as i64)
                }
                13 => ((r.unit() * 2.0 - 1.0) * 4.0) as f32,
                14 => match r.below(30) {
                    0 => f32::NAN,
                    1 => f32::INFINITY,
                    2 => f32::NEG_INFINITY,
                    3 => f32::MAX,
                    4 => f32::MIN_POSITIVE / 2.0,
                    _ => amp * (r.unit() * 2.0 - 1.0) as f32,
                },
                15 => r.pick(&[1.0, -1.0, 0.0, -0.0, 0.5, -0.5, G, -G, G * 0.5, G * 0.999, 0.99999, -0.99999, 32766.0 * G, 0.999_969_5]),
                16 => {
                    let k = ((start + f) * ch + c) as i64 * 37 % 65535 - 32767;
                    grid(k)
                }
                17 => {
                    // silence interrupted by loud bursts inside one chunk: small divisor, long unary runs
                    let on = (f as u64 / gap) % 7 == 3;
                    if on { grid(r.range(-32767, 32767)) } else { grid(r.range(-2, 2)) }
                }
                19 => {
                    // a few harmonics under a slow envelope, and some breath
                    let w0 = 0.004 + freq * 0.06;
                    let e = 0.55 - 0.45 * cos(t * 0.0007);
                    let y: f64 = (1..4).map(|h| sin(t * w0 * h as f64) / (h * h) as f64).sum::<f64>() * 0.7;
                    amp * (e * y) as f32 + (r.unit() as f32 - 0.5) * 0.001
                }
                _ => {
                    let m = if c % 2 == 0 { 32767 } else { 4000 };
                    let k = (sin(t * freq) * m as f64) as i64 + r.range(-40, 40);
                    grid(k.clamp(-32767, 32767))
                }
            };
            v.push(x);
        }
    }
    v
}

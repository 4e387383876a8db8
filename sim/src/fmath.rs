//! Elementary functions that give the same bits on every target (nothing but + - * / on f64).

/// natural logarithm of a positive number
pub fn ln(x: f64) -> f64 {
    let b = x.to_bits();
    let mut e = ((b >> 52) & 0x7ff) as i64 - 1023;
    let mut m = f64::from_bits(b & 0x000f_ffff_ffff_ffff | 0x3ff0_0000_0000_0000);
    if m > std::f64::consts::SQRT_2 {
        m /= 2.0;
        e += 1;
    }
    let s = (m - 1.0) / (m + 1.0);
    let (s2, mut p, mut sum) = (s * s, s, 0.0);
    for k in 0..14 {
        sum += p / (2 * k + 1) as f64;
        p *= s2;
    }
    2.0 * sum + e as f64 * std::f64::consts::LN_2
}
/// e^x for |x| < 700
pub fn exp(x: f64) -> f64 {
    let k = (x / std::f64::consts::LN_2 + if x < 0.0 { -0.5 } else { 0.5 }) as i64;
    let r = x - k as f64 * std::f64::consts::LN_2;
    let (mut p, mut sum) = (1.0, 1.0);
    for i in 1..16 {
        p *= r / i as f64;
        sum += p;
    }
    sum * f64::from_bits(((k + 1023) as u64) << 52)
}
/// sine; less exact for arguments beyond some millions
pub fn sin(x: f64) -> f64 {
    let k = (x * std::f64::consts::FRAC_2_PI + if x < 0.0 { -0.5 } else { 0.5 }) as i64;
    let f = k as f64;
    let r = ((x - f * 1.570_796_326_734_125_6) - f * 6.077_100_506_303_966e-11) - f * 2.022_266_248_795_950_6e-21;
    let z = r * r;
    let s = r + r * z * (-1.0 / 6.0 + z * (1.0 / 120.0 + z * (-1.0 / 5040.0 + z * (1.0 / 362_880.0 + z * (-1.0 / 39_916_800.0 + z * (1.0 / 6_227_020_800.0 - z / 1_307_674_368_000.0))))));
    let c = 1.0 + z * (-0.5 + z * (1.0 / 24.0 + z * (-1.0 / 720.0 + z * (1.0 / 40_320.0 + z * (-1.0 / 3_628_800.0 + z * (1.0 / 479_001_600.0 - z / 87_178_291_200.0))))));
    match k & 3 {
        0 => s,
        1 => c,
        2 => -s,
        _ => -c,
    }
    .clamp(-1.0, 1.0)
}
pub fn cos(x: f64) -> f64 {
    sin(x + std::f64::consts::FRAC_PI_2)
}

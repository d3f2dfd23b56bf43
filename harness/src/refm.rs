//! Reference models of the metrics: direct evaluations of the definitions on
//! the visible samples, sharing no code with the library.

use crate::pic::{Cs, Raw, RawPlane};
#[path = "refm_tables.rs"]
mod tables;
use tables::*;

// ------------------------------------------------------------------- PSNR

pub fn sse(a: &RawPlane, b: &RawPlane) -> u128 {
    a.d.iter()
        .zip(&b.d)
        .map(|(x, y)| {
            let d = (*x as i64 - *y as i64).unsigned_abs() as u128;
            d * d
        })
        .sum()
}

pub fn psnr(sse: u128, n: u128, depth: usize) -> f64 {
    if sse == 0 {
        return 100.0;
    }
    let max = ((1u64 << depth) - 1) as f64;
    (10.0 * (max * max * n as f64 / sse as f64).log10()).min(100.0)
}

/// (sse, samples) per plane
pub fn psnr_parts(a: &Raw, b: &Raw) -> [(u128, u128); 3] {
    [0, 1, 2].map(|p| {
        (
            sse(&a.planes[p], &b.planes[p]),
            a.planes[p].d.len() as u128,
        )
    })
}

// --------------------------------------------------------------- PSNR-HVS

/// Forward 8-point transform of the definition (Daala's reversible integer
/// DCT), written as the lifting steps of its flow graph.
fn fdct8(x: [i64; 8]) -> [i64; 8] {
    // Division by two that rounds towards zero for negative numbers, as the
    // definition's strength-reduced shift.
    let half = |a: i64| (a + i64::from(a < 0)) >> 1;
    let mul = |a: i64, c: i64, s: u32| (a * c + (1 << (s - 1))) >> s;
    let [x0, x4, x2, x6, x7, x3, x5, x1] = x;
    let mut d1 = x0 - x1;
    let h1 = half(d1);
    let mut s0 = x0 - h1;
    let mut s4 = x4 + x5;
    let h4 = half(s4);
    let mut d5 = x5 - h4;
    let mut d3 = x2 - x3;
    let mut s2 = x2 - half(d3);
    let mut s6 = x6 + x7;
    let h6 = half(s6);
    let mut d7 = h6 - x7;
    // four-point DCT-II of the sums
    s0 += h6;
    s6 = s0 - s6;
    s2 = h4 - s2;
    s4 = s2 - s4;
    s0 -= mul(s4, 13573, 15);
    s4 += mul(s0, 11585, 14);
    s0 -= mul(s4, 13573, 15);
    s6 -= mul(s2, 21895, 15);
    s2 += mul(s6, 15137, 14);
    s6 -= mul(s2, 21895, 15);
    // four-point DST-IV of the differences
    d3 += mul(d5, 19195, 15);
    d5 += mul(d3, 11585, 14);
    d3 -= mul(d5, 7489, 13);
    d7 = half(d5) - d7;
    d5 -= d7;
    d3 = h1 - d3;
    d1 -= d3;
    d7 += mul(d1, 3227, 15);
    d1 -= mul(d7, 6393, 15);
    d7 += mul(d1, 3227, 15);
    d5 += mul(d3, 2485, 13);
    d3 -= mul(d5, 18205, 15);
    d5 += mul(d3, 2485, 13);
    [s0, d1, s2, d3, s4, d5, s6, d7]
}

/// Two-dimensional transform, `[vertical frequency][horizontal frequency]`.
pub fn fdct8x8(b: &[[i64; 8]; 8]) -> [[i64; 8]; 8] {
    // Columns first.
    let mut t = [[0i64; 8]; 8];
    for x in 0..8 {
        let col = fdct8([0, 1, 2, 3, 4, 5, 6, 7].map(|y| b[y][x]));
        for k in 0..8 {
            t[k][x] = col[k];
        }
    }
    t.map(fdct8)
}

/// The sum of variances of the four 4x4 quarters relative to the variance of
/// the block.
fn var_ratio(b: &[[i64; 8]; 8]) -> f64 {
    let var = |y0: usize, x0: usize, n: usize| {
        let mut sum = 0i128;
        let mut sq = 0i128;
        for y in y0..y0 + n {
            for x in x0..x0 + n {
                sum += b[y][x] as i128;
                sq += (b[y][x] as i128).pow(2);
            }
        }
        // n^2 * sum of squared deviations, exactly
        let n2 = (n * n) as i128;
        let dev = (sq * n2 - sum * sum) as f64 / n2 as f64;
        dev * n2 as f64 / (n2 - 1) as f64
    };
    let g = var(0, 0, 8);
    if g > 0.0 {
        (var(0, 0, 4) + var(0, 4, 4) + var(4, 0, 4) + var(4, 4, 4)) / g
    } else {
        g
    }
}

/// The linear PSNR-HVS error of a plane, and the same without masking (the
/// scale of its rounding errors).
pub fn hvs_plane(a: &RawPlane, b: &RawPlane, idx: usize, depth: usize) -> (f64, f64) {
    if a.is_empty() {
        return (0.0, 0.0);
    }
    let csf = [&CSF_Y, &CSF_CB420, &CSF_CR420][idx];
    let mask = |i: usize, j: usize| (csf[i][j] * 0.3885746225901003).powi(2);
    let (mut sum, mut scale, mut n) = (0.0, 0.0, 0u64);
    let mut y = 0;
    while y + 8 <= a.h {
        let mut x = 0;
        while x + 8 <= a.w {
            let block = |p: &RawPlane| {
                let mut o = [[0i64; 8]; 8];
                for i in 0..8 {
                    for j in 0..8 {
                        o[i][j] = p.at(x + j, y + i) as i64;
                    }
                }
                o
            };
            let (ba, bb) = (block(a), block(b));
            let (ca, cb) = (fdct8x8(&ba), fdct8x8(&bb));
            let threshold = |b: &[[i64; 8]; 8], c: &[[i64; 8]; 8]| {
                let mut e = 0.0;
                for i in 0..8 {
                    for j in 0..8 {
                        if i + j > 0 {
                            e += (c[i][j] as f64).powi(2) * mask(i, j);
                        }
                    }
                }
                (e * var_ratio(b)).sqrt() / 32.0
            };
            let t = threshold(&ba, &ca).max(threshold(&bb, &cb));
            for i in 0..8 {
                for j in 0..8 {
                    let full = (ca[i][j] - cb[i][j]).abs() as f64;
                    let mut err = full;
                    if i + j > 0 {
                        err = (err - t / mask(i, j)).max(0.0);
                    }
                    sum += (err * csf[i][j]).powi(2);
                    scale += (full * csf[i][j]).powi(2);
                    n += 1;
                }
            }
            x += 7;
        }
        y += 7;
    }
    let max = ((1u64 << depth) - 1) as f64;
    let d = n as f64 * max * max;
    (sum / d, scale / d)
}

// ------------------------------------------------------------------- SSIM

/// Integer Gaussian window of the definition: `sigma`, at most `max_len - 1`
/// taps to each side, all taps sum to `weight`.
pub fn gaussian(sigma: f64, max_len: usize, weight: i64) -> Vec<i128> {
    let w = weight as f64;
    let s = (0.5 * std::f64::consts::PI).sqrt() * sigma / w;
    let len = if s >= 1.0 {
        0
    } else {
        (sigma * (-2.0 * s.ln()).sqrt()).floor() as usize
    };
    let len = len.min(max_len - 1);
    let tap = |i: usize| {
        let g = (-0.5 * (i * i) as f64 / (sigma * sigma)).exp()
            / ((2.0 * std::f64::consts::PI).sqrt() * sigma);
        (w * g + 0.5) as i128
    };
    let mut k: Vec<i128> = (0..=2 * len)
        .map(|i| if i == len { 0 } else { tap(i.abs_diff(len)) })
        .collect();
    let sides: i128 = k.iter().sum();
    k[len] = weight as i128 - sides;
    k
}

/// (mean SSIM, mean contrast-structure term), window weighted.
fn ssim_means(a: &[u32], b: &[u32], w: usize, h: usize, max: u64, k: &[i128]) -> (f64, f64) {
    let r = k.len() / 2;
    // Row sums of the separable window, exact.
    let mut rows: Vec<[i128; 6]> = vec![[0; 6]; w * h];
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, kw) in k.iter().enumerate() {
                let Some(xx) = (x + i).checked_sub(r) else { continue };
                if xx >= w {
                    continue;
                }
                let (p, q) = (a[y * w + xx] as i128, b[y * w + xx] as i128);
                m[0] += kw;
                m[1] += kw * p;
                m[2] += kw * q;
                m[3] += kw * p * p;
                m[4] += kw * q * q;
                m[5] += kw * p * q;
            }
            rows[y * w + x] = m;
        }
    }
    let (mut ssim, mut cs, mut wsum) = (0.0, 0.0, 0.0);
    let c1u = (0.01 * max as f64).powi(2);
    let c2u = (0.03 * max as f64).powi(2);
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, kw) in k.iter().enumerate() {
                let Some(yy) = (y + i).checked_sub(r) else { continue };
                if yy >= h {
                    continue;
                }
                for j in 0..6 {
                    m[j] += kw * rows[yy * w + x][j];
                }
            }
            let wt = m[0] as f64;
            let (mx, my) = (m[1] as f64 / wt, m[2] as f64 / wt);
            // w^2 * (co)variances are exact integers
            let w2 = wt * wt;
            let vx = (m[3] * m[0] - m[1] * m[1]) as f64 / w2;
            let vy = (m[4] * m[0] - m[2] * m[2]) as f64 / w2;
            let cov = (m[5] * m[0] - m[1] * m[2]) as f64 / w2;
            let c = (2.0 * cov + c2u) / (vx + vy + c2u);
            let l = (2.0 * mx * my + c1u) / (mx * mx + my * my + c1u);
            ssim += wt * c * l;
            cs += wt * c;
            wsum += wt;
        }
    }
    (ssim / wsum, cs / wsum)
}

fn vec32(p: &RawPlane) -> Vec<u32> {
    p.d.iter().map(|v| *v as u32).collect()
}

pub fn ssim_plane(a: &RawPlane, b: &RawPlane, depth: usize) -> f64 {
    if a.is_empty() {
        return 1.0;
    }
    let k = gaussian(a.h as f64 * 1.5 / 256.0, a.w.min(a.h), 256);
    ssim_means(&vec32(a), &vec32(b), a.w, a.h, (1 << depth) - 1, &k).0
}

pub fn msssim_plane(a: &RawPlane, b: &RawPlane, depth: usize) -> f64 {
    if a.is_empty() {
        return 1.0;
    }
    const W: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
    let k = gaussian(1.5, 5, 1024);
    let (mut p, mut q, mut w, mut h) = (vec32(a), vec32(b), a.w, a.h);
    let mut max = (1u64 << depth) - 1;
    let mut out = 1.0;
    for s in 0..5 {
        let (l, c) = ssim_means(&p, &q, w, h, max, &k);
        out *= (if s == 4 { l } else { c }).max(0.0).powf(W[s]);
        let down = |v: &[u32]| {
            let mut o = Vec::new();
            for y in 0..h / 2 {
                for x in 0..w / 2 {
                    let i = 2 * y * w + 2 * x;
                    o.push(v[i] + v[i + 1] + v[i + w] + v[i + w + 1]);
                }
            }
            o
        };
        if s < 4 {
            p = down(&p);
            q = down(&q);
            w /= 2;
            h /= 2;
            max *= 4;
        }
    }
    out
}

// -------------------------------------------------------------- CIEDE2000

pub fn lab(y: f64, u: f64, v: f64, depth: usize) -> [f64; 3] {
    let s = (1u32 << (depth - 8)) as f64;
    let y = (y - 16.0 * s) / (219.0 * s);
    let u = (u - 128.0 * s) / (224.0 * s);
    let v = (v - 128.0 * s) / (224.0 * s);
    let rgb = [
        y + 1.28033 * v,
        y - 0.21482 * u - 0.38059 * v,
        y + 2.12798 * u,
    ];
    let lin = rgb.map(|c| {
        // The two branches of the transfer curve meet around here; the
        // library switches at this point, sRGB at 0.04045.
        if c > 10.0 / 255.0 {
            ((c + 0.055) / 1.055).powf(2.4)
        } else {
            c / 12.92
        }
    });
    let m = [
        [0.4124564390896921, 0.357576077643909, 0.18043748326639894],
        [0.21267285140562248, 0.715152155287818, 0.07217499330655958],
        [0.019333895582329317, 0.119192025881303, 0.9503040785363677],
    ];
    let white = [0.95047, 1.0, 1.08883];
    let mut f = [0.0; 3];
    for i in 0..3 {
        let t = (m[i][0] * lin[0] + m[i][1] * lin[1] + m[i][2] * lin[2]) / white[i];
        f[i] = if t > 216.0 / 24389.0 {
            t.cbrt()
        } else {
            (24389.0 / 27.0 * t + 16.0) / 116.0
        };
    }
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}

/// The CIEDE2000 colour difference as in Sharma, Wu and Dalal (2005).
pub fn de2000(p: [f64; 3], q: [f64; 3]) -> f64 {
    de2000_branch(p, q, 180.0)
}

/// `half`: hues that are further apart than this are averaged the other way
/// round.  180 by definition; the result jumps there.
fn de2000_branch(p: [f64; 3], q: [f64; 3], half: f64) -> f64 {
    let (kl, kc, kh) = (0.65, 1.0, 4.0);
    let pow7 = 25f64.powi(7);
    let c = |v: [f64; 3]| v[1].hypot(v[2]);
    let cb7 = ((c(p) + c(q)) / 2.0).powi(7);
    let g = 0.5 * (1.0 - (cb7 / (cb7 + pow7)).sqrt());
    let prime = |v: [f64; 3]| {
        let a = (1.0 + g) * v[1];
        let c = a.hypot(v[2]);
        let mut h = if a == 0.0 && v[2] == 0.0 {
            0.0
        } else {
            v[2].atan2(a).to_degrees()
        };
        if h < 0.0 {
            h += 360.0;
        }
        (c, h)
    };
    let ((c1, h1), (c2, h2)) = (prime(p), prime(q));
    let dl = q[0] - p[0];
    let dc = c2 - c1;
    let dh = if c1 * c2 == 0.0 {
        0.0
    } else {
        let d = h2 - h1;
        if d > half {
            d - 360.0
        } else if d < -half {
            d + 360.0
        } else {
            d
        }
    };
    let dhh = 2.0 * (c1 * c2).sqrt() * (dh / 2.0).to_radians().sin();
    let lb = (p[0] + q[0]) / 2.0;
    let cb = (c1 + c2) / 2.0;
    let hb = if c1 * c2 == 0.0 {
        h1 + h2
    } else if (h1 - h2).abs() <= half {
        (h1 + h2) / 2.0
    } else if h1 + h2 < 360.0 {
        (h1 + h2 + 360.0) / 2.0
    } else {
        (h1 + h2 - 360.0) / 2.0
    };
    let cosd = |d: f64| d.to_radians().cos();
    let t = 1.0 - 0.17 * cosd(hb - 30.0) + 0.24 * cosd(2.0 * hb) + 0.32 * cosd(3.0 * hb + 6.0)
        - 0.20 * cosd(4.0 * hb - 63.0);
    let dtheta = 30.0 * (-((hb - 275.0) / 25.0).powi(2)).exp();
    let cb7 = cb.powi(7);
    let rc = 2.0 * (cb7 / (cb7 + pow7)).sqrt();
    let sl = 1.0 + 0.015 * (lb - 50.0).powi(2) / (20.0 + (lb - 50.0).powi(2)).sqrt();
    let sc = 1.0 + 0.045 * cb;
    let sh = 1.0 + 0.015 * cb * t;
    let rt = -(2.0 * dtheta).to_radians().sin() * rc;
    let (l, c, h) = (dl / (kl * sl), dc / (kc * sc), dhh / (kh * sh));
    (l * l + c * c + h * h + rt * c * h).max(0.0).sqrt()
}

/// Error of a Lab component computed in single precision: components reach
/// 100 and more and are differences of values that reach 500.
pub const LAB_ERROR: f64 = 4e-4;

/// The colour difference, and how far it can be off when the two colours are
/// rounded, including the jump of the mean hue at opposite hues.
pub fn de2000_err(p: [f64; 3], q: [f64; 3]) -> (f64, f64) {
    let mid = de2000(p, q);
    let dev = |a, b, worst: f64| {
        let f = |half| (de2000_branch(a, b, half) - mid).abs();
        worst.max(f(179.999)).max(f(180.001))
    };
    let mut err = 0.0;
    for first in [true, false] {
        let with = |v: [f64; 3], worst| {
            if first {
                dev(v, q, worst)
            } else {
                dev(p, v, worst)
            }
        };
        let v = if first { p } else { q };
        let worst = with([v[0] + LAB_ERROR, v[1], v[2]], 0.0);
        err += with([v[0] - LAB_ERROR, v[1], v[2]], worst);
        // The hue of a nearly grey colour is arbitrary.
        let n = if v[1].hypot(v[2]) < 0.1 { 32 } else { 8 };
        let mut worst = 0.0;
        for k in 0..n {
            let (s, c) = (k as f64 * std::f64::consts::TAU / n as f64).sin_cos();
            worst = with([v[0], v[1] + LAB_ERROR * c, v[2] + LAB_ERROR * s], worst);
        }
        err += worst;
    }
    (mid, err)
}

/// Mean colour difference over all luma positions, and how far it can be off
/// in single precision.
pub fn ciede_mean(a: &Raw, b: &Raw) -> (f64, f64) {
    let g = a.geo;
    let neutral = (1u32 << (g.depth - 1)) as f64;
    let (xd, yd) = g.cs.dec();
    let colour = |r: &Raw, x: usize, y: usize| {
        let c = |p: usize| {
            if g.cs == Cs::C400 {
                neutral
            } else {
                r.planes[p].at(x >> xd, y >> yd) as f64
            }
        };
        lab(r.planes[0].at(x, y) as f64, c(1), c(2), g.depth)
    };
    let key = |r: &Raw, x: usize, y: usize| {
        let c = |p: usize| if g.cs == Cs::C400 { 0 } else { r.planes[p].at(x >> xd, y >> yd) as u64 };
        r.planes[0].at(x, y) as u64 | c(1) << 16 | c(2) << 32
    };
    let mut sum = (0.0, 0.0);
    // Flat pictures repeat the same two colours, others a few pairs of colours.
    let mut last = None;
    let mut known = std::collections::HashMap::new();
    for y in 0..g.h {
        for x in 0..g.w {
            let k = (key(a, x, y), key(b, x, y));
            let r = match last {
                Some((l, r)) if l == k => r,
                _ if known.len() > 20_000 => de2000_err(colour(a, x, y), colour(b, x, y)),
                _ => *known.entry(k).or_insert_with(|| de2000_err(colour(a, x, y), colour(b, x, y))),
            };
            last = Some((k, r));
            sum = (sum.0 + r.0, sum.1 + r.1);
        }
    }
    let n = (g.w * g.h) as f64;
    (sum.0 / n, sum.1 / n)
}

#[cfg(test)]
mod tests {
    use super::*;

    /// The integer transform of the model is a DCT-II up to rounding.
    #[test]
    fn dct_is_a_dct() {
        let mut worst = 0f64;
        for seed in 0..200u32 {
            let mut b = [[0i64; 8]; 8];
            for y in 0..8 {
                for x in 0..8 {
                    b[y][x] = (crate::pic::hash2(seed, x as u32, y as u32) % 4096) as i64;
                }
            }
            let c = fdct8x8(&b);
            for u in 0..8 {
                for v in 0..8 {
                    let n = |k: usize| if k == 0 { (0.125f64).sqrt() } else { 0.5 };
                    let mut s = 0.0;
                    for y in 0..8 {
                        for x in 0..8 {
                            let f = |k: usize, i: usize| {
                                ((2 * i + 1) as f64 * k as f64 * std::f64::consts::PI / 16.0).cos()
                            };
                            s += b[y][x] as f64 * f(u, y) * f(v, x);
                        }
                    }
                    let e = n(u) * n(v) * s;
                    worst = worst.max((c[u][v] as f64 - e).abs());
                }
            }
        }
        println!("worst deviation {worst}");
        assert!(worst < 12.0, "{worst}");
    }

    /// Published test data (Sharma et al.), adapted to kL = kC = kH = 1 is not
    /// possible with fixed factors, so only invariants are checked here.
    #[test]
    fn lab_of_white_and_black() {
        let w = lab(235.0, 128.0, 128.0, 8);
        assert!((w[0] - 100.0).abs() < 1e-4 && w[1].abs() < 1e-2 && w[2].abs() < 1e-2, "{w:?}");
        let k = lab(16.0, 128.0, 128.0, 8);
        assert!(k[0].abs() < 1e-9);
    }
}

//! Uniform access to the library's metrics.

use crate::pic::{Layout, Raw};
use crate::run::guarded;

use av_metrics::video::decode::Decoder;
use av_metrics::video::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Metric {
    Psnr,
    Apsnr,
    Hvs,
    Ssim,
    Msssim,
    Ciede,
    CiedeScalar,
}

pub const FRAME_METRICS: [Metric; 5] = [
    Metric::Psnr,
    Metric::Hvs,
    Metric::Ssim,
    Metric::Msssim,
    Metric::Ciede,
];
pub const VIDEO_METRICS: [Metric; 6] = [
    Metric::Psnr,
    Metric::Apsnr,
    Metric::Hvs,
    Metric::Ssim,
    Metric::Msssim,
    Metric::Ciede,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Score {
    Planar { y: f64, u: f64, v: f64, avg: f64 },
    Single(f64),
}

impl From<PlanarMetrics> for Score {
    fn from(m: PlanarMetrics) -> Self {
        Score::Planar {
            y: m.y,
            u: m.u,
            v: m.v,
            avg: m.avg,
        }
    }
}

impl Score {
    pub fn values(&self) -> Vec<f64> {
        match *self {
            Score::Planar { y, u, v, avg } => vec![y, u, v, avg],
            Score::Single(x) => vec![x],
        }
    }
    pub fn planes(&self) -> [f64; 3] {
        match *self {
            Score::Planar { y, u, v, .. } => [y, u, v],
            Score::Single(x) => [x; 3],
        }
    }
    pub fn avg(&self) -> f64 {
        match *self {
            Score::Planar { avg, .. } => avg,
            Score::Single(x) => x,
        }
    }
    pub fn single(&self) -> f64 {
        self.avg()
    }
}

pub fn frame_score_t<T: Pixel>(
    m: Metric,
    a: &Frame<T>,
    b: &Frame<T>,
    depth: usize,
    cs: ChromaSampling,
) -> Result<Score, String> {
    let e = |e: Box<dyn std::error::Error>| e.to_string();
    Ok(match m {
        Metric::Psnr | Metric::Apsnr => psnr::calculate_frame_psnr(a, b, depth, cs).map_err(e)?.into(),
        Metric::Hvs => psnr_hvs::calculate_frame_psnr_hvs(a, b, depth, cs)
            .map_err(e)?
            .into(),
        Metric::Ssim => ssim::calculate_frame_ssim(a, b, depth, cs).map_err(e)?.into(),
        Metric::Msssim => ssim::calculate_frame_msssim(a, b, depth, cs)
            .map_err(e)?
            .into(),
        Metric::Ciede => Score::Single(ciede::calculate_frame_ciede(a, b, depth, cs).map_err(e)?),
        Metric::CiedeScalar => {
            Score::Single(ciede::calculate_frame_ciede_nosimd(a, b, depth, cs).map_err(e)?)
        }
    })
}

/// Outer error: the library panicked; inner: it returned an error.
pub fn try_frame_score(
    m: Metric,
    a: &Raw,
    b: &Raw,
    la: &Layout,
    lb: &Layout,
) -> Result<Result<Score, String>, String> {
    let g = a.geo;
    with_pixel!(g.depth, T => {
        let (fa, fb) = (a.frame::<T>(la), b.frame::<T>(lb));
        guarded(|| frame_score_t(m, &fa, &fb, g.depth, g.cs.lib()))
    })
}

/// For input that must have a score.
pub fn frame_score(m: Metric, a: &Raw, b: &Raw, la: &Layout, lb: &Layout) -> Result<Score, String> {
    match try_frame_score(m, a, b, la, lb) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("{m:?} rejected supported input: {e}")),
        Err(e) => Err(format!("{m:?}: {e}")),
    }
}

pub fn video_score<D: Decoder, F: Fn(usize) + Send>(
    m: Metric,
    d1: &mut D,
    d2: &mut D,
    limit: Option<usize>,
    cb: F,
) -> Result<Score, String> {
    let e = |e: Box<dyn std::error::Error>| e.to_string();
    Ok(match m {
        Metric::Psnr => psnr::calculate_video_psnr(d1, d2, limit, cb).map_err(e)?.into(),
        Metric::Apsnr => psnr::calculate_video_apsnr(d1, d2, limit, cb).map_err(e)?.into(),
        Metric::Hvs => psnr_hvs::calculate_video_psnr_hvs(d1, d2, limit, cb)
            .map_err(e)?
            .into(),
        Metric::Ssim => ssim::calculate_video_ssim(d1, d2, limit, cb).map_err(e)?.into(),
        Metric::Msssim => ssim::calculate_video_msssim(d1, d2, limit, cb)
            .map_err(e)?
            .into(),
        Metric::Ciede => Score::Single(ciede::calculate_video_ciede(d1, d2, limit, cb).map_err(e)?),
        Metric::CiedeScalar => {
            Score::Single(ciede::calculate_video_ciede_nosimd(d1, d2, limit, cb).map_err(e)?)
        }
    })
}

/// The part of 1 that is missing from a similarity on the linear scale, or the
/// linear error: both are what `-10*log10` was applied to.
pub fn linear(db: f64) -> f64 {
    10f64.powf(-db / 10.0)
}

/// Equality of two reported values up to rounding of sums.
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

/// Equality of two reported values of a metric up to the rounding of sums, where
/// it occurs: on the linear scale for the scores that are logarithms of sums of
/// small differences (1e-16 is 160 dB).
pub fn close(m: Metric, a: f64, b: f64) -> bool {
    match m {
        Metric::Hvs | Metric::Ssim | Metric::Msssim => {
            let (p, q) = (linear(a), linear(b));
            (p - q).abs() <= 1e-9 * p.abs().max(q.abs()) + 1e-11
        }
        _ => same(a, b),
    }
}

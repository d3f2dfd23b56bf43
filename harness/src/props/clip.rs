//! C07..C10: clips.

use crate::metric::*;
use crate::props::frame::ciede_floor;
use crate::mock::*;
use crate::pic::*;
use crate::refm;
use crate::run::*;
use av_metrics::video::decode::{Decoder, VideoDetails};
use av_metrics::video::{ChromaSampling, Frame, Pixel, Plane};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// Two clips: frame `i` of the second is derived from frame `i` of the first.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Clips {
    pub geo: Geo,
    pub a: Vec<[Pat; 3]>,
    pub b: Vec<Diff>,
}

impl Clips {
    pub fn raws(&self) -> (Vec<Raw>, Vec<Raw>) {
        let base = [Pat::Flat(20000), Pat::Flat(40000), Pat::Flat(30000)];
        let a: Vec<Raw> = self.a.iter().map(|p| Raw::render(self.geo, p, &[])).collect();
        let b = self
            .b
            .iter()
            .enumerate()
            .map(|(i, d)| match a.get(i) {
                Some(f) => f.derive(d),
                None => Raw::render(self.geo, &base, &[]).derive(d),
            })
            .collect();
        (a, b)
    }
    pub fn common(&self) -> usize {
        self.a.len().min(self.b.len())
    }
    pub fn mocks(&self) -> (Mock, Mock) {
        let (a, b) = self.raws();
        // Half of the clips have frames of changing layouts.
        let h = hash2(a.len() as u32, self.geo.w as u32, self.geo.h as u32);
        let mock = |frames, vary| Mock {
            vary: if h & 1 == 0 { 0 } else { vary },
            ..Mock::new(self.geo, Arc::new(frames))
        };
        (mock(a, h), mock(b, h ^ 0xffff0))
    }
}

pub fn metric() -> BoxedStrategy<Metric> {
    prop::sample::select(VIDEO_METRICS.to_vec()).boxed()
}

/// Depths CIEDE2000 has no conversion for only occur with other metrics.
pub fn fit(m: Metric, mut c: Clips) -> (Metric, Clips) {
    if matches!(m, Metric::Ciede | Metric::CiedeScalar) && ![8, 10, 12].contains(&c.geo.depth) {
        c.geo.depth = 10;
    }
    if matches!(m, Metric::Hvs | Metric::Msssim) {
        let (x, y) = c.geo.cs.dec();
        let min = if m == Metric::Hvs { 8 } else { 16 };
        c.geo.w = c.geo.w.max(min << x);
        c.geo.h = c.geo.h.max(min << y);
    }
    (m, c)
}

pub fn clip_geo(max: usize) -> BoxedStrategy<Geo> {
    prop_oneof![
        3 => geo((16, max), 16, true, depth_any()),
        1 => geo((1, 20), 1, true, depth_any()),
        1 => (1usize..12, 40usize..160, cs(true), depth_any())
            .prop_map(|(w, h, cs, depth)| Geo { w, h, cs, depth }),
    ]
    .boxed()
}

/// Many frames, told by few numbers: any two of a clip differ.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lengthy {
    metric: Metric,
    geo: Geo,
    lens: (usize, usize),
    seed: u32,
    amp: u16,
    pool: usize,
    limits: Vec<Option<usize>>,
}

impl Lengthy {
    fn clips(&self) -> Clips {
        let h = |i: usize, k: u32| hash2(self.seed, i as u32, k);
        Clips {
            geo: self.geo,
            a: (0..self.lens.0)
                .map(|i| {
                    [0, 1, 2].map(|k| match h(i, k) % 3 {
                        0 => Pat::Flat(h(i, 10 + k) as u16),
                        1 => Pat::Noise { seed: h(i, 20 + k), lo: 0, hi: 65535 },
                        _ => Pat::Ramp { base: h(i, 30 + k) as u16, dx: 900, dy: -1100 },
                    })
                })
                .collect(),
            b: (0..self.lens.1)
                .map(|i| Diff::Noise {
                    seed: h(i, 40),
                    amp: (self.amp as u32 * (1 + h(i, 50) % 16) / 16) as u16,
                    density: 200,
                    planes: 7,
                })
                .collect(),
        }
    }
}

/// Around powers of two and round numbers, where counters and buffers end.
fn lengthy(max: usize, calls: usize) -> BoxedStrategy<Lengthy> {
    let count = move || {
        prop_oneof![
            1 => 120..=max,
            2 => prop::sample::select(
                [127usize, 128, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097]
                    .into_iter()
                    .filter(|v| *v <= max)
                    .collect::<Vec<_>>()
            ),
        ]
    };
    (
        metric(),
        geo((1, 6), 1, true, depth_any()),
        count(),
        prop_oneof![2 => Just(None), 1 => count().prop_map(Some)],
        (any::<u32>(), any::<bool>(), prop_oneof![100u16..2000, 2000u16..30000]),
        1usize..=8,
        prop::collection::vec(prop_oneof![1 => Just(None), 3 => count().prop_map(Some)], calls),
    )
        .prop_map(|(m, geo, n, other, (seed, swap, amp), pool, limits)| {
            let k = other.unwrap_or(n);
            let lens = if swap { (k, n) } else { (n, k) };
            let (metric, c) = fit(m, Clips { geo, a: vec![], b: vec![] });
            Lengthy { metric, geo: c.geo, lens, seed, amp, pool, limits }
        })
        .boxed()
}

/// Around 2^16 frames.
fn endless(calls: usize) -> BoxedStrategy<Lengthy> {
    let count = || prop_oneof![3 => 65_535usize..65_540, 1 => 65_600usize..66_000];
    (
        lengthy(200, calls),
        prop_oneof![2 => prop::sample::select(vec![Metric::Psnr, Metric::Apsnr]), 1 => metric()],
        (count(), count(), any::<bool>()),
        prop::collection::vec(prop_oneof![1 => Just(None), 3 => count().prop_map(Some)], calls),
    )
        .prop_map(|(mut l, m, (a, b, same), limits)| {
            l.lens = (a, if same { a } else { b });
            l.limits = limits;
            let (x, y) = l.geo.cs.dec();
            (l.geo.w, l.geo.h) = (1 << x, 1 << y);
            let (metric, c) = fit(m, Clips { geo: l.geo, a: vec![], b: vec![] });
            Lengthy { metric, geo: c.geo, ..l }
        })
        .boxed()
}

pub fn clips(max_side: usize, max_len: usize) -> BoxedStrategy<Clips> {
    clips_of(clip_geo(max_side), 0, max_len)
}

pub fn clips_of(geo: BoxedStrategy<Geo>, min_len: usize, max_len: usize) -> BoxedStrategy<Clips> {
    let len = move || prop_oneof![2 => min_len..=max_len.min(min_len + 4), 3 => min_len..=max_len];
    (geo, len(), len(), any::<bool>())
        .prop_flat_map(|(geo, la, lb, equal)| {
            let lb = if equal { la } else { lb };
            (
                Just(geo),
                prop::collection::vec(pats(), la),
                prop::collection::vec(diff(), lb),
            )
        })
        .prop_map(|(geo, a, b)| Clips { geo, a, b })
        .boxed()
}

/// The clip score that the definition gives for these pairs.
pub fn expected(m: Metric, a: &[Raw], b: &[Raw]) -> Result<Score, String> {
    let n = a.len().min(b.len());
    let depth = a[0].geo.depth;
    let l = Layout::default();
    let frame = |m| -> Result<Vec<Score>, String> {
        (0..n).map(|i| frame_score(m, &a[i], &b[i], &l, &l)).collect()
    };
    let planar = |f: &dyn Fn(usize) -> f64| Score::Planar {
        y: f(0),
        u: f(1),
        v: f(2),
        avg: f(3),
    };
    // Squared error and samples, per frame: Y, U, V, all.
    let parts = || -> Vec<[(u128, u128); 4]> {
        (0..n)
            .map(|i| {
                let p = refm::psnr_parts(&a[i], &b[i]);
                let all = (p.iter().map(|x| x.0).sum(), p.iter().map(|x| x.1).sum());
                [p[0], p[1], p[2], all]
            })
            .collect()
    };
    Ok(match m {
        Metric::Psnr => {
            let p = parts();
            planar(&|k| {
                let sum = p.iter().fold((0, 0), |s, x| (s.0 + x[k].0, s.1 + x[k].1));
                refm::psnr(sum.0, sum.1, depth)
            })
        }
        Metric::Apsnr => {
            let p = parts();
            planar(&|k| p.iter().map(|x| refm::psnr(x[k].0, x[k].1, depth)).sum::<f64>() / n as f64)
        }
        Metric::Ciede | Metric::CiedeScalar => {
            let f = frame(m)?;
            Score::Single(f.iter().map(|s| s.single()).sum::<f64>() / n as f64)
        }
        _ => {
            let f = frame(m)?;
            planar(&|k| {
                -10.0 * (f.iter().map(|s| linear(s.values()[k])).sum::<f64>() / n as f64).log10()
            })
        }
    })
}

/// Clips with more samples are not modelled.
const MODELLED: usize = 10_000;

/// Compares the clip score of few samples with the harness's own models of the
/// frame metrics, which no state of the library can have changed. The averages
/// over planes are left to C14.
fn modelled(m: Metric, a: &[Raw], b: &[Raw], got: &Score) -> Result<bool, String> {
    let n = a.len().min(b.len());
    let g = a[0].geo;
    if n * g.w * g.h > MODELLED {
        return Ok(false);
    }
    let mean = |f: &dyn Fn(usize) -> f64| (0..n).map(f).sum::<f64>() / n as f64;
    match m {
        Metric::Psnr | Metric::Apsnr => return Ok(false),
        Metric::Ciede | Metric::CiedeScalar => {
            let d: Vec<_> = (0..n).map(|i| refm::ciede_mean(&a[i], &b[i])).collect();
            let at = |sign: f64| {
                mean(&|i| {
                    let (d, err) = d[i];
                    let d = d.max(ciede_floor());
                    (45.0 - 20.0 * (d + sign * (err + 3e-5 + 3e-6 * d)).max(0.0).log10()).min(100.0)
                })
            };
            let (low, high, got) = (at(1.0) - 1e-9, at(-1.0) + 1e-9, got.single());
            if !(low <= got && got <= high) {
                return Err(format!(
                    "{m:?} of {n} frames is {got}, the formula gives {low} to {high}"
                ));
            }
        }
        _ => {
            for k in 0..3 {
                let pairs: Vec<_> = (0..n).map(|i| (&a[i].planes[k], &b[i].planes[k])).collect();
                let (want, tolerance) = if m == Metric::Hvs {
                    let e: Vec<_> =
                        pairs.iter().map(|(p, q)| refm::hvs_plane(p, q, k, g.depth)).collect();
                    (mean(&|i| e[i].0), mean(&|i| 1e-9 * e[i].0 + 1e-11 * e[i].1))
                } else {
                    let f = if m == Metric::Ssim { refm::ssim_plane } else { refm::msssim_plane };
                    (mean(&|i| 1.0 - f(pairs[i].0, pairs[i].1, g.depth)), 2e-10)
                };
                let d = linear(got.planes()[k]);
                if !((d - want).abs() <= tolerance) {
                    return Err(format!(
                        "{m:?} of {n} frames is {got:?}, the definition gives plane {k} {}",
                        -10.0 * want.max(0.0).log10()
                    ));
                }
            }
        }
    }
    Ok(true)
}

/// Equality up to the rounding of sums.
pub fn same_score(m: Metric, a: &Score, b: &Score) -> bool {
    a.values().len() == b.values().len()
        && a.values().iter().zip(b.values()).all(|(x, y)| close(m, *x, y))
}

/// Runs a clip metric on a pool of the given size (0: the global pool, called
/// from outside).
pub fn run<D: Decoder + 'static>(
    m: Metric,
    pool: usize,
    mut d1: D,
    mut d2: D,
    limit: Option<usize>,
    cb: impl Fn(usize) + Send + 'static,
) -> Result<(Result<Score, String>, D, D), String> {
    watched(move || {
        let go = move || {
            let r = guarded(|| video_score(m, &mut d1, &mut d2, limit, cb));
            r.map(|r| (r, d1, d2))
        };
        if pool == 0 {
            go()
        } else {
            let pool = rayon::ThreadPoolBuilder::new()
                .num_threads(pool)
                .build()
                .expect("thread pool");
            pool.install(|| go())
        }
    })?
}

fn overrun(a: &Mock, b: &Mock) -> Result<(), String> {
    let n = a.overrun.load(Ordering::SeqCst) + b.overrun.load(Ordering::SeqCst);
    if n > 0 {
        return Err("the calculation keeps reading long after the end of the clip".into());
    }
    Ok(())
}

fn has_diff(c: &Clips) -> bool {
    c.b.iter().any(|d| *d != Diff::Same)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Agg {
    metric: Metric,
    clips: Clips,
    pool: usize,
}

fn check_agg(c: &Agg) -> CaseResult {
    let (a, b) = c.clips.raws();
    let n = c.clips.common();
    let (m1, m2) = c.clips.mocks();
    let (o1, o2) = (m1.clone(), m2.clone());
    let (got, _, _) = run(c.metric, c.pool, m1, m2, None, |_| {})?;
    overrun(&o1, &o2)?;
    if n == 0 {
        return match got {
            Err(_) => Ok(Info::new(true).tag("no common frame")),
            Ok(s) => Err(format!("{:?} of clips without a common frame is {s:?}", c.metric)),
        };
    }
    let got = got.map_err(|e| format!("{:?} rejected supported clips: {e}", c.metric))?;
    let want = expected(c.metric, &a, &b)?;
    if !same_score(c.metric, &got, &want) {
        return Err(format!(
            "{:?} of {} and {} frames is {got:?}, the aggregate of the pairs is {want:?}",
            c.metric,
            a.len(),
            b.len()
        ));
    }
    let modelled = modelled(c.metric, &a, &b, &got)?;
    if n == 1 {
        // One frame scores the same as the frame.
        if !matches!(c.metric, Metric::Apsnr) {
            let l = Layout::default();
            let f = frame_score(c.metric, &a[0], &b[0], &l, &l)?;
            if !same_score(c.metric, &got, &f) {
                return Err(format!("{:?} of a one-frame clip is {got:?}, of the frame {f:?}", c.metric));
            }
        }
    }
    Ok(Info::new(n >= 2 && has_diff(&c.clips))
        .tag_if(a.len() != b.len(), "lengths differ")
        .tag_if(n == 1, "one frame")
        .tag_if(n >= 15, "more frames than workers")
        .tag_if(modelled, "frames modelled")
        .tag_if(c.clips.geo.cs == Cs::C400, "mono"))
}

fn agg(max_side: usize, max_len: usize) -> BoxedStrategy<Agg> {
    (metric(), clips(max_side, max_len), 1usize..=8)
        .prop_map(|(m, c, pool)| {
            let (metric, clips) = fit(m, c);
            Agg { metric, clips, pool }
        })
        .boxed()
}

/// Both clips change their size at the same frames.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Resized {
    agg: Agg,
    /// The sizes of the frames, repeated.
    sizes: Vec<(usize, usize)>,
}

fn resized() -> BoxedStrategy<Resized> {
    (agg(34, 12), prop::collection::vec((side(1, 40), side(1, 40)), 1..5))
        .prop_map(|(agg, mut sizes)| {
            let g = agg.clips.geo;
            let (x, y) = g.cs.dec();
            let min = match agg.metric {
                Metric::Hvs => 8,
                Metric::Msssim => 16,
                _ => 1,
            };
            for (w, h) in &mut sizes {
                *w = (*w).max(min << x);
                *h = (*h).max(min << y);
            }
            Resized { agg, sizes }
        })
        .boxed()
}

fn check_resized(c: &Resized) -> CaseResult {
    let (m, k) = (c.agg.metric, &c.agg.clips);
    let geo = |i: usize| match i {
        0 => k.geo,
        _ => {
            let (w, h) = c.sizes[i % c.sizes.len()];
            Geo { w, h, ..k.geo }
        }
    };
    let a: Vec<Raw> = k.a.iter().enumerate().map(|(i, p)| Raw::render(geo(i), p, &[])).collect();
    let b: Vec<Raw> = a.iter().zip(&k.b).map(|(r, d)| r.derive(d)).collect();
    if b.is_empty() {
        return Ok(Info::new(false));
    }
    let mock = |f: &[Raw]| Mock::new(k.geo, Arc::new(f.to_vec()));
    let (got, _, _) = run(m, c.agg.pool, mock(&a), mock(&b), None, |_| {})?;
    let got = got.map_err(|e| format!("{m:?} rejected clips whose frames have the same sizes: {e}"))?;
    let want = expected(m, &a, &b)?;
    if !same_score(m, &got, &want) {
        return Err(format!(
            "{m:?} of {} frames of sizes {:?} is {got:?}, the aggregate of the pairs is {want:?}",
            b.len(),
            b.iter().map(|r| (r.geo.w, r.geo.h)).collect::<Vec<_>>()
        ));
    }
    Ok(Info::new(b.iter().any(|r| r.geo != b[0].geo) && a.iter().zip(&b).any(|(x, y)| x != y)))
}

pub fn c07(ctx: &mut Ctx) {
    let n = ctx.cases(30_000, 300_000);
    ctx.leg(
        "short",
        "pairs of generated clips of 0 to 12 frames each, a metric and a pool size; the clip score \
         is compared with the aggregate of the frame pairs (squared errors counted by the harness, \
         other frame scores from the frame functions, and for few samples from the harness's \
         models); non-trivial if there are at least two common \
         frames and a difference, or no common frame",
        n,
        || agg(44, 12),
        check_agg,
    );
    let n = ctx.cases(4_000, 40_000);
    ctx.leg("long", "the same with up to 150 frames", n, || agg(34, 150), check_agg);
    let n = ctx.cases(3_000, 60_000);
    ctx.leg(
        "resized",
        "clips whose frames change their size together; non-trivial if there are different sizes and \
         a difference",
        n,
        resized,
        check_resized,
    );
    let n = ctx.cases(300, 6_000);
    ctx.leg(
        "very-long",
        "the same with clips of small pictures and up to 2100 (thorough: 4100) frames",
        n,
        {
            let max = if ctx.tier == Tier::Quick { 2_100 } else { 4_100 };
            move || lengthy(max, 0)
        },
        |c| check_agg(&Agg { metric: c.metric, clips: c.clips(), pool: c.pool }),
    );
    let n = ctx.cases(8, 200);
    ctx.leg(
        "endless",
        "the same with around 2^16 frames",
        n,
        || endless(0),
        |c| check_agg(&Agg { metric: c.metric, clips: c.clips(), pool: c.pool }),
    );
    // One at a time: they need much memory.
    ctx.shards = 1;
    let n = ctx.cases(2, 24);
    ctx.leg(
        "vast",
        "PSNR of clips of flat frames with more than 2^32 samples in all, against the closed form; \
         always non-trivial",
        n,
        || vast((1 << 32) + (1 << 27)),
        check_vast,
    );
}

/// Monochrome clips of very many samples: flat frames with given differences.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vast {
    side: usize,
    depth: usize,
    base: u16,
    diffs: Vec<u8>,
    average: bool,
}

struct FlatClip<'a> {
    c: &'a Vast,
    second: bool,
    pos: usize,
}

impl Decoder for FlatClip<'_> {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        let d = *self.c.diffs.get(self.pos)?;
        self.pos += 1;
        let v = self.c.base + if self.second { d as u16 } else { 0 };
        let mut f = Frame {
            planes: [
                Plane::new(self.c.side, self.c.side, 0, 0, 0, 0),
                Plane::new(0, 0, 1, 1, 0, 0),
                Plane::new(0, 0, 1, 1, 0, 0),
            ],
        };
        f.planes[0].data.fill(T::cast_from(v));
        Some(f)
    }
    fn get_bit_depth(&self) -> usize {
        self.c.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.c.side,
            height: self.c.side,
            bit_depth: self.c.depth,
            chroma_sampling: ChromaSampling::Cs400,
            ..Default::default()
        }
    }
}

fn check_vast(c: &Vast) -> CaseResult {
    let clip = |second| FlatClip { c, second, pos: 0 };
    let m = if c.average { Metric::Apsnr } else { Metric::Psnr };
    let got = guarded(|| video_score(m, &mut clip(false), &mut clip(true), None, |_| {}))??;
    let area = (c.side * c.side) as u128;
    let squares = c.diffs.iter().map(|d| *d as u128 * *d as u128);
    let n = c.diffs.len();
    let want = if c.average {
        squares.map(|s| refm::psnr(s * area, area, c.depth)).sum::<f64>() / n as f64
    } else {
        refm::psnr(squares.sum::<u128>() * area, area * n as u128, c.depth)
    };
    if !same(got.planes()[0], want) || !same(got.avg(), want) {
        return Err(format!("{m:?} of {n} frames of {0}x{0} is {got:?} instead of {want}", c.side));
    }
    Ok(Info::new(area * n as u128 >= 1 << 31)
        .tag_if(area * n as u128 >= 1 << 32, "more than 2^32 samples")
        .tag_if(c.depth > 8, "two-byte samples"))
}

fn vast(total: u64) -> BoxedStrategy<Vast> {
    (
        prop::sample::select(vec![6000usize, 8192, 10000]),
        prop::sample::select(vec![8usize, 8, 10, 16]),
        0u16..200,
        1u8..56,
        any::<u32>(),
        prop_oneof![5 => Just(false), 1 => Just(true)],
    )
        .prop_map(move |(side, depth, base, d, seed, average)| {
            let n = (total / (side * side) as u64) as usize + 1;
            let diffs = (0..n as u32).map(|i| (hash2(seed, i, 0) % (d as u32 + 1)) as u8).collect();
            Vast { side, depth, base, diffs, average }
        })
        .boxed()
}

// ------------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sched {
    metric: Metric,
    clips: Clips,
    pool: usize,
    delays_a: Vec<u32>,
    delays_b: Vec<u32>,
}

fn delays() -> BoxedStrategy<Vec<u32>> {
    let d = prop_oneof![4 => Just(0u32), 2 => 1u32..20, 3 => 20u32..400, 1 => 400u32..4000];
    prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(d, 1..12)].boxed()
}

fn sched(max_len: usize, pool: BoxedStrategy<usize>) -> BoxedStrategy<Sched> {
    (
        metric(),
        clips_of(geo((16, 36), 16, true, depth_video()), 1, max_len),
        pool,
        delays(),
        delays(),
    )
        .prop_map(|(m, c, pool, delays_a, delays_b)| {
            let (metric, clips) = fit(m, c);
            Sched { metric, clips, pool, delays_a, delays_b }
        })
        .boxed()
}

fn judge(c: &Sched, got: Result<Score, String>) -> Result<(), String> {
    let (a, b) = c.clips.raws();
    let got = got.map_err(|e| format!("{:?} failed under this schedule: {e}", c.metric))?;
    let want = expected(c.metric, &a, &b)?;
    if !same_score(c.metric, &got, &want) {
        return Err(format!(
            "{:?} under this schedule is {got:?} instead of {want:?}",
            c.metric
        ));
    }
    modelled(c.metric, &a, &b, &got)?;
    Ok(())
}

fn sched_mocks(c: &Sched) -> (Mock, Mock) {
    let (mut m1, mut m2) = c.clips.mocks();
    m1.delays = c.delays_a.clone();
    m2.delays = c.delays_b.clone();
    (m1, m2)
}

fn check_sched(c: &Sched) -> CaseResult {
    let (m1, m2) = sched_mocks(c);
    let (o1, o2) = (m1.clone(), m2.clone());
    let (got, _, _) = run(c.metric, c.pool, m1, m2, None, |_| {})?;
    overrun(&o1, &o2)?;
    judge(c, got)?;
    Ok(Info::new(
        c.clips.common() > c.pool && (c.delays_a.iter().chain(&c.delays_b)).any(|d| *d > 0),
    )
    .tag_if(c.pool == 1, "pool of one")
    .tag_if(c.pool > 8, "pool larger than the machine")
    .tag_if(c.pool == 0, "global pool"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    calls: Vec<Sched>,
    /// 0: own threads and the global pool; otherwise tasks of one pool.
    pool: usize,
}

fn check_many(c: &Many) -> CaseResult {
    let calls = c.calls.clone();
    let pool = c.pool;
    let results = watched(move || {
        let results: Vec<Mutex<Option<Result<Score, String>>>> =
            calls.iter().map(|_| Mutex::new(None)).collect();
        let one = |i: usize| {
            let (mut m1, mut m2) = sched_mocks(&calls[i]);
            let r = guarded(|| video_score(calls[i].metric, &mut m1, &mut m2, None, |_| {}));
            *results[i].lock().unwrap() = Some(r.and_then(|r| r));
        };
        if pool == 0 {
            std::thread::scope(|s| {
                for i in 0..calls.len() {
                    let one = &one;
                    s.spawn(move || one(i));
                }
            });
        } else {
            rayon::ThreadPoolBuilder::new()
                .num_threads(pool)
                .build()
                .expect("thread pool")
                .scope(|s| {
                    for i in 0..calls.len() {
                        let one = &one;
                        s.spawn(move |_| one(i));
                    }
                });
        }
        results
            .into_iter()
            .map(|r| r.into_inner().unwrap().unwrap_or_else(|| Err("no result".into())))
            .collect::<Vec<_>>()
    })?;
    for (call, r) in c.calls.iter().zip(results) {
        judge(call, r)?;
    }
    Ok(Info::new(c.calls.len() >= 2)
        .tag_if(c.pool == 0, "global pool")
        .tag_if(c.pool == 1, "pool of one"))
}

pub fn c08(ctx: &mut Ctx) {
    let n = ctx.cases(12_000, 200_000);
    ctx.leg(
        "pools",
        "clips of 1 to 40 frames, pool of 1 to 16 threads, a delay before every read of either \
         decoder (none, yield, up to 4 ms); the score must be the aggregate of the aligned pairs; \
         non-trivial if there are more frames than workers and some delay",
        n,
        || sched(40, prop_oneof![1 => Just(1usize), 1 => Just(2), 4 => 1usize..=16].boxed()),
        check_sched,
    );
    let n = ctx.cases(240, 6_000);
    ctx.leg(
        "crowds",
        "the same with clips of up to 300 frames and a pool of 17 to 300 threads",
        n,
        || sched(300, prop_oneof![2 => 17usize..=70, 1 => 100usize..=140, 1 => 250usize..=300].boxed()),
        check_sched,
    );
    let n = ctx.cases(3_000, 40_000);
    ctx.leg(
        "concurrent",
        "2 to 6 such calculations at once, as tasks of one pool of 1 to 16 threads or on own \
         threads with the global pool; each must have its own score; non-trivial always",
        n,
        || {
            (
                prop::collection::vec(sched(16, Just(0usize).boxed()), 2..=6),
                prop_oneof![1 => Just(0usize), 1 => Just(1), 3 => 1usize..=16],
            )
                .prop_map(|(calls, pool)| Many { calls, pool })
                .boxed()
        },
        check_many,
    );
    let n = ctx.cases(2_500, 40_000);
    ctx.leg(
        "sizes",
        "2 to 6 calculations with short clips of very different sizes, narrow and tall or wide and \
         low, in turn or at once; each must have the score that the harness's models of the frame \
         metrics give; non-trivial if two have the same metric and differ in size",
        n,
        || {
            let one = (metric(), clips_of(slim(), 1, 3), 1usize..5).prop_map(|(m, c, pool)| {
                let (metric, clips) = fit(m, c);
                Sched { metric, clips, pool, delays_a: vec![], delays_b: vec![] }
            });
            (prop::collection::vec(one, 2..=6), any::<bool>())
                .prop_map(|(calls, at_once)| Sizes { calls, at_once })
                .boxed()
        },
        check_sizes,
    );
    let n = ctx.cases(16, 80);
    ctx.leg(
        "stalls",
        "1 to 12 calculations at once, in each of which one decoder or the progress callback pauses \
         once for 0.3 to 11 s (thorough: 65 s), at the start, within or at the end; non-trivial always",
        n,
        {
            let times: &[u32] = match ctx.tier {
                Tier::Quick => &[300, 600, 1100, 2200, 5200, 10_500],
                Tier::Thorough => &[300, 1100, 5200, 10_500, 31_000, 61_000],
            };
            move || stalls(times)
        },
        check_stalls,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sizes {
    calls: Vec<Sched>,
    at_once: bool,
}

/// Few samples, but any height or width.
fn slim() -> BoxedStrategy<Geo> {
    (any::<bool>(), 1usize..=20, prop_oneof![1 => 1usize..60, 3 => 60usize..500], cs(true), depth_any())
        .prop_map(|(tall, a, b, cs, depth)| {
            let (w, h) = if tall { (a, b) } else { (b, a) };
            Geo { w, h, cs, depth }
        })
        .boxed()
}

fn check_sizes(c: &Sizes) -> CaseResult {
    let calls = c.calls.clone();
    let at_once = c.at_once;
    let results = watched(move || {
        let one = |s: &Sched| {
            let (m1, m2) = sched_mocks(s);
            run(s.metric, s.pool, m1, m2, None, |_| {}).and_then(|r| r.0)
        };
        if at_once {
            std::thread::scope(|s| {
                let handles: Vec<_> = calls.iter().map(|c| s.spawn(|| one(c))).collect();
                handles
                    .into_iter()
                    .map(|h| h.join().unwrap_or_else(|_| Err("no result".into())))
                    .collect::<Vec<_>>()
            })
        } else {
            calls.iter().map(one).collect()
        }
    })?;
    let mut sizes = std::collections::HashMap::new();
    let mut mixed = false;
    for (i, (call, r)) in c.calls.iter().zip(results).enumerate() {
        let g = call.clips.geo;
        judge(call, r).map_err(|e| format!("{e} (calculation {i}, {}x{})", g.w, g.h))?;
        mixed |= *sizes.entry(format!("{:?}", call.metric)).or_insert((g.w, g.h)) != (g.w, g.h);
    }
    Ok(Info::new(mixed).tag_if(c.at_once, "at once"))
}

/// Calculations at once, each with one long pause somewhere.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stalls {
    calls: Vec<(Sched, Stall)>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Stall {
    /// 0, 1: a decoder; 2: the progress callback.
    place: u8,
    at: u16,
    millis: u32,
}

fn check_stalls(c: &Stalls) -> CaseResult {
    let calls = c.calls.clone();
    let results = watched(move || {
        let one = |c: &(Sched, Stall)| {
            let (s, stall) = c;
            let (mut m1, mut m2) = sched_mocks(s);
            let n = s.clips.common();
            // also at the end: frame n is the read that finds no frame
            let at = stall.at as usize * (n + 1) / 65536;
            let mut once = vec![0; n + 300];
            once[at] = stall.millis * 1000;
            match stall.place {
                0 => m1.delays = once,
                1 => m2.delays = once,
                _ => {}
            }
            let cb = |k: usize| {
                if stall.place == 2 && (k == at || k == usize::MAX && at == 0) {
                    pause(stall.millis * 1000);
                }
            };
            rayon::ThreadPoolBuilder::new()
                .num_threads(s.pool)
                .build()
                .expect("thread pool")
                .install(|| guarded(|| video_score(s.metric, &mut m1, &mut m2, None, cb)))
                .and_then(|r| r)
        };
        std::thread::scope(|s| {
            let handles: Vec<_> = calls.iter().map(|c| s.spawn(|| one(c))).collect();
            handles
                .into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err("no result".into())))
                .collect::<Vec<_>>()
        })
    })?;
    for ((call, stall), r) in c.calls.iter().zip(results) {
        judge(call, r).map_err(|e| format!("{e} ({stall:?})"))?;
    }
    Ok(Info::new(true).tag_if(c.calls.iter().any(|c| c.1.millis > 5000), "a pause above 5 s"))
}

fn stalls(times: &'static [u32]) -> BoxedStrategy<Stalls> {
    let stall = (0u8..3, any::<u16>(), prop::sample::select(times))
        .prop_map(|(place, at, millis)| Stall { place, at, millis });
    prop::collection::vec(
        (sched(12, (1usize..5).boxed()), stall),
        1..=12,
    )
    .prop_map(|calls| Stalls { calls })
    .boxed()
}

// ------------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    clips: Clips,
    calls: Vec<(Metric, Option<usize>)>,
    pool: usize,
}

fn limit() -> BoxedStrategy<Option<usize>> {
    prop_oneof![
        1 => Just(None),
        1 => Just(Some(0usize)),
        10 => (1usize..6).prop_map(Some),
        3 => (1usize..40).prop_map(Some),
        1 => prop::sample::select(vec![
            usize::MAX,
            usize::MAX - 1,
            usize::MAX / 2,
            isize::MAX as usize,
            u32::MAX as usize,
            u32::MAX as usize + 1,
            1_000_000_000_000,
        ]).prop_map(Some),
    ]
    .boxed()
}

fn check_hist(c: &Hist) -> CaseResult {
    let (a, b) = c.clips.raws();
    let (mut m1, mut m2) = c.clips.mocks();
    let (r1, r2) = (m1.reads.clone(), m2.reads.clone());
    let (o1, o2) = (m1.clone(), m2.clone());
    // Position in the two clips; none once one of them has ended.
    let mut pos = 0usize;
    let mut ended = false;
    let (mut chained, mut exact) = (0, false);
    for (i, &(m, limit)) in c.calls.iter().enumerate() {
        let what = format!("call {i} ({m:?}, limit {limit:?}, from frame {pos})");
        let (s1, s2) = (r1.load(Ordering::SeqCst), r2.load(Ordering::SeqCst));
        let log = Arc::new(Mutex::new(Vec::new()));
        let l2 = log.clone();
        let (got, n1, n2) = run(m, c.pool, m1, m2, limit, move |x| l2.lock().unwrap().push(x))
            .map_err(|e| format!("{what}: {e}"))?;
        overrun(&o1, &o2)?;
        (m1, m2) = (n1, n2);
        let rest = if ended { 0 } else { a.len().min(b.len()).saturating_sub(pos) };
        let k = limit.unwrap_or(usize::MAX).min(rest);
        let reads = (
            r1.load(Ordering::SeqCst) - s1,
            r2.load(Ordering::SeqCst) - s2,
        );
        if let Some(n) = limit {
            if reads.0 > n || reads.1 > n {
                return Err(format!("{what} reads {} and {} frames", reads.0, reads.1));
            }
        }
        if !ended && (reads.0 < k || reads.1 < k) {
            return Err(format!("{what} reads only {} and {} frames", reads.0, reads.1));
        }
        let seen = log.lock().unwrap().clone();
        let want: Vec<usize> = (1..=k).chain([usize::MAX]).collect();
        if seen != want {
            return Err(format!(
                "{what} reports progress {:?} instead of {:?}",
                &seen[..seen.len().min(50)],
                want
            ));
        }
        if k == 0 {
            // What a comparison of no frames returns is the subject of C10,
            // except for a limit of 0.
            if limit != Some(0) && got.is_ok() {
                return Err(format!("{what} has no frame to compare but gives {got:?}"));
            }
        } else {
            let got = got.map_err(|e| format!("{what} fails: {e}"))?;
            let want = expected(m, &a[pos..pos + k], &b[pos..pos + k])?;
            if !same_score(m, &got, &want) {
                return Err(format!(
                    "{what} gives {got:?}, frames {pos}..{} score {want:?}",
                    pos + k
                ));
            }
            chained += 1;
        }
        exact |= limit == Some(k) && k > 0;
        if limit.map_or(true, |n| n > rest) {
            ended = true;
        }
        pos += k;
    }
    Ok(Info::new(chained >= 2 && exact)
        .tag_if(c.calls.iter().any(|x| x.1 == Some(0)), "limit 0")
        .tag_if(c.calls.iter().any(|x| x.1 > Some(1 << 31)), "huge limit")
        .tag_if(chained >= 3, "three calls with frames"))
}

pub fn c09(ctx: &mut Ctx) {
    let n = ctx.cases(10_000, 100_000);
    ctx.leg(
        "calls",
        "sequences of 1 to 6 clip metric calls with limits on one pair of decoders, against the \
         model 'list of frames and a position'; non-trivial if at least two calls compare frames \
         and one of them stops at its limit",
        n,
        || {
            (
                prop_oneof![
                    1 => clips_of(geo((16, 34), 16, true, depth_video()), 0, 6),
                    3 => clips_of(geo((16, 34), 16, true, depth_video()), 8, 40),
                ],
                prop::collection::vec((metric(), limit()), 1..=6),
                1usize..=9,
            )
                .prop_map(|(clips, calls, pool)| Hist { clips, calls, pool })
                .boxed()
        },
        check_hist,
    );
    let n = ctx.cases(400, 5_000);
    ctx.leg(
        "very-long",
        "the same with up to 1100 (thorough: 4100) frames and one to three calls; non-trivial as above",
        n,
        {
            let max = if ctx.tier == Tier::Quick { 1_100 } else { 4_100 };
            move || (1usize..4).prop_flat_map(move |k| lengthy(max, k)).boxed()
        },
        |c| {
            check_hist(&Hist {
                clips: c.clips(),
                calls: c.limits.iter().map(|l| (c.metric, *l)).collect(),
                pool: c.pool,
            })
        },
    );
    let n = ctx.cases(32, 300);
    ctx.leg(
        "endless",
        "the same with around 2^16 frames and one or two calls; non-trivial as above",
        n,
        || (1usize..3).prop_flat_map(endless).boxed(),
        |c| {
            check_hist(&Hist {
                clips: c.clips(),
                calls: c.limits.iter().map(|l| (c.metric, *l)).collect(),
                pool: c.pool,
            })
        },
    );
}

// ------------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// The second clip has another geometry from the start.
    Other(Geo),
    /// Frames of the second clip have another size from this index.
    Later { from: usize, w: usize, h: usize },
    /// One frame of the second clip has another size.
    Once { at: usize, w: usize, h: usize },
    /// Frames of the second clip have another sampling from this index.
    Sampling { from: usize, cs: Cs },
    Empty { first: bool, second: bool },
    /// The n-th read of one decoder panics.
    Panic { second: bool, at: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    metric: Metric,
    clips: Clips,
    fault: Fault,
    /// The clips change places.
    swap: bool,
    pool: usize,
    limit: Option<usize>,
    delays: Vec<u32>,
}

fn check_bad(c: &Bad) -> CaseResult {
    let (mut a, mut b) = c.clips.raws();
    let geo = c.clips.geo;
    let n = c.clips.common();
    let mut geo_b = geo;
    let mut panics = (None, None);
    match &c.fault {
        Fault::Other(g) => {
            geo_b = *g;
            b = b
                .iter()
                .map(|_| Raw::render(*g, &[Pat::Flat(30000), Pat::Flat(20000), Pat::Flat(50000)], &[]))
                .collect();
        }
        Fault::Later { from, w, h } => {
            let g = Geo { w: *w, h: *h, ..geo };
            for f in &mut b[(*from).min(n - 1)..] {
                *f = Raw::render(g, &[Pat::Flat(30000), Pat::Flat(20000), Pat::Flat(50000)], &[]);
            }
        }
        Fault::Once { at, w, h } => {
            let g = Geo { w: *w, h: *h, ..geo };
            b[(*at).min(n - 1)] = Raw::render(g, &[Pat::Flat(30000), Pat::Flat(20000), Pat::Flat(50000)], &[]);
        }
        Fault::Sampling { from, cs } => {
            let g = Geo { cs: *cs, ..geo };
            for f in &mut b[(*from).min(n - 1)..] {
                *f = Raw::render(g, &[Pat::Flat(30000), Pat::Flat(20000), Pat::Flat(50000)], &[]);
            }
        }
        Fault::Empty { first, second } => {
            if *first {
                a.clear();
            }
            if *second {
                b.clear();
            }
        }
        Fault::Panic { second, at } => {
            let at = Some(*at % (n + 1));
            if *second {
                panics.1 = at;
            } else {
                panics.0 = at;
            }
        }
    }
    let (la, lb) = (a.len(), b.len());
    let mut m1 = Mock::new(geo, Arc::new(a));
    let mut m2 = Mock::new(geo_b, Arc::new(b));
    m1.panic_at = panics.0;
    m2.panic_at = panics.1;
    m1.delays = c.delays.clone();
    if c.swap {
        std::mem::swap(&mut m1, &mut m2);
    }
    let (got, _, _) = run(c.metric, c.pool, m1, m2, c.limit, |_| {})?;
    if let Ok(s) = got {
        return Err(format!("{:?} of {:?} is {s:?}, not an error", c.metric, c.fault));
    }
    Ok(Info::new(matches!(c.fault, Fault::Empty { .. }) || n >= 1)
        .tag(match c.fault {
            Fault::Other(g) if g.depth != geo.depth => "bit depth",
            Fault::Other(g) if g.cs != geo.cs => "sampling",
            Fault::Other(_) => "size",
            Fault::Later { .. } => "size changes later",
            Fault::Once { .. } => "one frame has another size",
            Fault::Sampling { .. } => "sampling changes later",
            Fault::Empty { .. } => "empty",
            Fault::Panic { .. } => "panic",
        })
        .tag_if(la.min(lb) > 2 * c.pool + 2, "many more frames than workers")
        .tag_if(geo.cs == Cs::C400, "mono"))
}

fn bad() -> BoxedStrategy<Bad> {
    (
        metric(),
        clips_of(
            prop_oneof![
                2 => geo((16, 34), 16, true, depth_any()),
                1 => geo((1, 20), 1, true, depth_any()),
            ]
            .boxed(),
            1,
            60,
        ),
        prop_oneof![2 => 0u8..3, 2 => Just(3u8), 1 => Just(4), 3 => Just(5), 1 => Just(6), 2 => Just(7)],
        any::<[u16; 4]>(),
        any::<bool>(),
        1usize..=16,
        delays(),
        any::<bool>(),
    )
        .prop_map(|(m, c, kind, r, swap, pool, delays, limited)| {
            let (metric, clips) = fit(m, c);
            let g = clips.geo;
            let n = clips.common();
            let pick = |r: u16, k: usize| r as usize * k / 65536;
            let bump = |v: usize, r: u16| {
                // mostly the neighbouring sizes, where chroma may stay the same
                let d = [1, 2, 3, 16][pick(r, 4)];
                if r & 1 == 0 || v <= d {
                    v + d
                } else {
                    v - d
                }
            };
            let (w2, h2) = match pick(r[0], 3) {
                0 => (bump(g.w, r[1]), g.h),
                1 => (g.w, bump(g.h, r[2])),
                _ => (bump(g.w, r[1]), bump(g.h, r[2])),
            };
            let mut other_cs: Vec<Cs> = [Cs::C400, Cs::C420, Cs::C422, Cs::C444]
                .into_iter()
                .filter(|c| *c != g.cs)
                .collect();
            other_cs.rotate_left(pick(r[1], 3));
            let other_cs = [other_cs[0], other_cs[1], other_cs[2]];
            let fault = match kind {
                0 => {
                    let ds: Vec<usize> = if metric == Metric::Ciede { vec![8, 10, 12] } else { (8..=16).collect() };
                    let ds: Vec<usize> = ds.into_iter().filter(|d| *d != g.depth).collect();
                    Fault::Other(Geo { depth: ds[pick(r[0], ds.len())], ..g })
                }
                1 => {
                    Fault::Other(Geo { cs: other_cs[pick(r[0], 3)], ..g })
                }
                2 => Fault::Other(Geo { w: w2, h: h2, ..g }),
                3 => Fault::Later { from: pick(r[3], n), w: w2, h: h2 },
                7 => Fault::Once { at: pick(r[3], n), w: w2, h: h2 },
                // Of pictures so small that their chroma has the same size in
                // several samplings nothing changes.
                6 => match other_cs.into_iter().find(|c| c.chroma_dims(g.w, g.h) != g.cs.chroma_dims(g.w, g.h)) {
                    Some(cs) => Fault::Sampling { from: pick(r[3], n), cs },
                    None => Fault::Other(Geo { cs: other_cs[0], ..g }),
                },
                4 => Fault::Empty { first: r[0] % 3 != 0, second: r[0] % 3 != 1 },
                _ => Fault::Panic { second: r[0] & 1 == 1, at: pick(r[3], n + 1) },
            };
            // A limit that leaves the fault within the compared frames.
            let limit = match &fault {
                _ if !limited => None,
                Fault::Later { from, .. } | Fault::Sampling { from, .. } => Some(from + 1 + pick(r[0], 5)),
                Fault::Panic { at, .. } | Fault::Once { at, .. } => Some(at + 1 + pick(r[1], 5)),
                _ => Some(1 + pick(r[0], 70)),
            };
            Bad { metric, clips, fault, swap, pool, limit, delays }
        })
        .boxed()
}

/// Long clips with one fault, told by few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongBad {
    clips: Lengthy,
    /// Where: 16 bits of the length.
    at: u16,
    kind: u8,
    swap: bool,
}

fn check_long_bad(c: &LongBad) -> CaseResult {
    let k = &c.clips;
    let clips = k.clips();
    let n = clips.common();
    let at = c.at as usize * n / 65536;
    let (w, h) = (k.geo.w + 1 + c.kind as usize / 4, k.geo.h + c.kind as usize % 2);
    check_bad(&Bad {
        metric: k.metric,
        clips,
        fault: match c.kind % 4 {
            0 => Fault::Later { from: at, w, h },
            1 | 2 => Fault::Once { at, w, h },
            _ => Fault::Panic { second: c.at & 1 == 1, at },
        },
        swap: c.swap,
        pool: k.pool,
        limit: if c.kind > 7 { Some(n) } else { None },
        delays: vec![],
    })
    .map(|i| i.tag_if(at > 255, "beyond frame 255"))
}

/// Frames of the longer clip that are not compared.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rest {
    agg: Agg,
    extra: usize,
    geo: Geo,
    swap: bool,
}

fn check_rest(c: &Rest) -> CaseResult {
    let (m, k) = (c.agg.metric, &c.agg.clips);
    let (a, mut b) = k.raws();
    let n = k.common();
    if n == 0 {
        return Ok(Info::new(false));
    }
    let a = a[..n].to_vec();
    b.truncate(n);
    let want = expected(m, &a, &b)?;
    for i in 0..c.extra {
        b.push(Raw::render(c.geo, &[Pat::Flat(i as u16), Pat::Flat(20000), Pat::Flat(50000)], &[]));
    }
    let mut m1 = Mock::new(k.geo, Arc::new(a));
    let mut m2 = Mock::new(k.geo, Arc::new(b));
    if c.swap {
        std::mem::swap(&mut m1, &mut m2);
    }
    let (got, _, _) = run(m, c.agg.pool, m1, m2, None, |_| {})?;
    let got = got.map_err(|e| format!("{m:?} is an error because of frames after the shorter clip: {e}"))?;
    if !same_score(m, &got, &want) {
        return Err(format!("{m:?} is {got:?} instead of {want:?} with other frames after the shorter clip"));
    }
    Ok(Info::new(c.geo != k.geo))
}

pub fn c10(ctx: &mut Ctx) {
    let n = ctx.cases(24_000, 300_000);
    ctx.leg(
        "faults",
        "pairs of clips of 1 to 60 frames with one fault (other depth, sampling or size from the \
         start; other size from a later compared frame; no frames; a panic in any read), a metric, \
         a pool size and delays; the call must return an error; non-trivial if the fault lies \
         within the compared frames",
        n,
        bad,
        check_bad,
    );
    let n = ctx.cases(300, 6_000);
    ctx.leg(
        "late-faults",
        "the same with clips of hundreds or thousands of small frames and a fault in one of them (or from \
         one of them on); non-trivial as above",
        n,
        || {
            (lengthy(1_100, 0), any::<u16>(), 0u8..12, any::<bool>())
                .prop_map(|(clips, at, kind, swap)| LongBad { clips, at, kind, swap })
                .boxed()
        },
        check_long_bad,
    );
    let n = ctx.cases(4_000, 80_000);
    ctx.leg(
        "not-compared",
        "the longer clip goes on with frames of another size or sampling, which are not compared: the score \
         stays; non-trivial if the geometry differs",
        n,
        || {
            (agg(30, 12), 1usize..20, geo((1, 40), 1, true, Just(8).boxed()), any::<bool>())
                .prop_map(|(agg, extra, g, swap)| {
                    let geo = Geo { depth: agg.clips.geo.depth, ..g };
                    Rest { agg, extra, geo, swap }
                })
                .boxed()
        },
        check_rest,
    );
}

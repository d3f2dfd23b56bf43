//! C27: samples that do not fit the bit depth of their video.

use super::clip::{run, same_score};
use super::decode::open;
use super::frame::other;
use crate::metric::*;
use crate::mock::Mock;
use crate::pic::*;
use crate::run::*;
use crate::y4m::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

const METRICS: [Metric; 6] = [
    Metric::Psnr,
    Metric::Hvs,
    Metric::Ssim,
    Metric::Msssim,
    Metric::Ciede,
    Metric::CiedeScalar,
];

/// Which samples are taken beyond the depth, and how far.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spill {
    seed: u32,
    /// Of 256 samples; 0 means one sample of each plane.
    density: u8,
    planes: u8,
    /// The first frame, the second one, or both.
    frames: u8,
    /// 0: just beyond, 1: one more bit, 2: the largest 16-bit value, else: anything.
    how: u8,
}

impl Spill {
    fn apply(&self, frame: u32, raw: &mut Raw, depth: usize) {
        if self.frames & (1 << (frame & 1)) == 0 {
            return;
        }
        let max = (1u32 << depth) - 1;
        for p in 0..3 {
            let n = raw.planes[p].d.len();
            if self.planes & (1 << p) == 0 || n == 0 {
                continue;
            }
            let one = hash2(self.seed, frame, p as u32) as usize % n;
            for (i, v) in raw.planes[p].d.iter_mut().enumerate() {
                let h = hash2(self.seed ^ frame.wrapping_mul(0x9e37), p as u32, i as u32);
                if if self.density == 0 { i == one } else { h & 255 < self.density as u32 } {
                    *v = match self.how {
                        0 => max + 1,
                        1 => max + 1 | *v as u32,
                        2 => 65535,
                        _ => max + 1 + (h >> 8) % (65535 - max),
                    }
                    .min(65535) as u16;
                }
            }
        }
    }
}

fn spill() -> BoxedStrategy<Spill> {
    (any::<u32>(), prop_oneof![1 => Just(0u8), 3 => 1u8..=255], planes_mask(), 1u8..4, 0u8..5)
        .prop_map(|(seed, density, planes, frames, how)| Spill { seed, density, planes, frames, how })
        .boxed()
}

fn clamped(r: &Raw) -> Raw {
    r.map_planes(7, |_, _, _, v| v)
}

fn beyond(r: &Raw) -> bool {
    r.planes.iter().any(|p| p.d.iter().any(|v| *v as u32 > r.geo.max()))
}

fn no_nan(what: &str, s: &Score) -> Result<(), String> {
    match s.values().iter().any(|v| v.is_nan()) {
        true => Err(format!("{what} of samples beyond the depth is not a number: {s:?}")),
        false => Ok(()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Over {
    pair: Pair,
    spill: Spill,
}

fn check_frames(c: &Over) -> CaseResult {
    let (mut a, mut b) = c.pair.raws();
    c.spill.apply(0, &mut a, c.pair.geo.depth);
    c.spill.apply(1, &mut b, c.pair.geo.depth);
    let (l, o) = (c.pair.layout, other(&c.pair.layout));
    let (ca, cb) = (clamped(&a), clamped(&b));
    let mut scores = 0;
    for m in METRICS {
        let got = try_frame_score(m, &a, &b, &l, &o).map_err(|e| format!("{m:?}: {e}"))?;
        let within = try_frame_score(m, &ca, &cb, &l, &o).map_err(|e| format!("{m:?} within the depth: {e}"))?;
        let (got, within) = match (got, within) {
            (Err(_), Err(_)) => continue, // too small, or a depth without a conversion
            (Err(_), Ok(_)) => continue,  // refusing such samples is an answer, too
            (Ok(s), Err(e)) => return Err(format!("{m:?} is {s:?}, but for samples of the depth: {e}")),
            (Ok(s), Ok(w)) => (s, w),
        };
        scores += 1;
        no_nan(&format!("{m:?}"), &got)?;
        if matches!(m, Metric::Ciede | Metric::CiedeScalar) && !same_score(m, &got, &within) {
            return Err(format!(
                "{m:?} is {got:?} with samples beyond the depth, {within:?} with the largest value in their place"
            ));
        }
    }
    Ok(Info::new(scores > 0 && (beyond(&a) || beyond(&b)))
        .tag_if(beyond(&a) && beyond(&b), "in both frames")
        .tag_if(c.spill.density == 0, "single samples")
        .tag_if(c.pair.geo.cs == Cs::C444, "4:4:4")
        .tag_if(matches!(c.pair.geo.depth, 10 | 12), "depth with a colour conversion"))
}

fn depth_over() -> BoxedStrategy<usize> {
    prop_oneof![4 => Just(10usize), 4 => Just(12), 1 => 9usize..=15].boxed()
}

fn over(geo: BoxedStrategy<Geo>) -> BoxedStrategy<Over> {
    (pair_of(geo), spill()).prop_map(|(pair, spill)| Over { pair, spill }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OverClip {
    metric: Metric,
    video: Video,
    diff: Diff,
    spill: Spill,
    /// The frames from here on have such samples.
    from: usize,
    pool: usize,
    files: bool,
}

fn check_clip(c: &OverClip) -> CaseResult {
    let h = &c.video.header;
    let g = h.geo();
    let a: Vec<Raw> = c.video.raws();
    let b: Vec<Raw> = a.iter().map(|r| r.derive(&c.diff)).collect();
    let spilled = |v: &[Raw], second: u32| -> Vec<Raw> {
        let mut v = v.to_vec();
        for (i, r) in v.iter_mut().enumerate().skip(c.from) {
            c.spill.apply(2 * i as u32 + second, r, g.depth);
        }
        v
    };
    let (a, b) = (spilled(&a, 0), spilled(&b, 1));
    let any = a.iter().chain(&b).any(beyond);
    let m = c.metric;
    let score = |a: &[Raw], b: &[Raw], files| -> Result<Result<Score, String>, String> {
        if files {
            let file = |v: &[Raw]| {
                let mut bytes = h.text();
                for r in v {
                    bytes.extend_from_slice(b"FRAME\n");
                    put_samples(&mut bytes, r, h.bytes());
                }
                Scratch::with(".y4m", &bytes)
            };
            let (fa, fb) = (file(a), file(b));
            Ok(run(m, c.pool, open(&fa.0)?, open(&fb.0)?, None, |_| {})?.0)
        } else {
            let mock = |v: &[Raw]| Mock::new(g, Arc::new(v.to_vec()));
            Ok(run(m, c.pool, mock(a), mock(b), None, |_| {})?.0)
        }
    };
    let got = score(&a, &b, c.files).map_err(|e| format!("{m:?} of clips with samples beyond the depth: {e}"))?;
    // The decoder realigns chroma that is sited vertically, as it is stored.
    let within = |v: &[Raw]| -> Vec<Raw> {
        v.iter().map(|r| if c.files { clamped(&decoded(r, h.space.pos())) } else { clamped(r) }).collect()
    };
    let within = score(&within(&a), &within(&b), false)?;
    let info = Info::new(any && within.is_ok())
        .tag_if(c.files, "files")
        .tag_if(c.from > c.pool, "late")
        .tag_if(a.len() > c.pool + 2, "more frames than threads");
    match (got, within) {
        (Err(_), _) => {}
        (Ok(s), Err(e)) => return Err(format!("{m:?} is {s:?}, but for samples of the depth: {e}")),
        (Ok(s), Ok(w)) => {
            no_nan(&format!("{m:?}"), &s)?;
            if matches!(m, Metric::Ciede | Metric::CiedeScalar) && !same_score(m, &s, &w) {
                return Err(format!(
                    "{m:?} of clips is {s:?} with samples beyond the depth, {w:?} with the largest value in their place"
                ));
            }
        }
    }
    Ok(info)
}

fn over_clip() -> BoxedStrategy<OverClip> {
    let deep: Vec<Space> = SPACES.iter().copied().filter(|s| s.depth() > 8).collect();
    let metric = prop_oneof![
        3 => Just(Metric::Ciede),
        3 => Just(Metric::CiedeScalar),
        4 => prop::sample::select(VIDEO_METRICS.to_vec()),
    ];
    (
        metric,
        video(prop::sample::select(deep).boxed(), (1, 40), 24),
        diff(),
        spill(),
        prop_oneof![2 => Just(0usize), 1 => 0usize..12],
        1usize..9,
        any::<bool>(),
    )
        .prop_map(|(metric, mut video, diff, spill, from, pool, files)| {
            video.beyond = false;
            if matches!(metric, Metric::Hvs | Metric::Msssim) {
                video.header.w = video.header.w.max(32);
                video.header.h = video.header.h.max(32);
            }
            OverClip { metric, video, diff, spill, from, pool, files }
        })
        .boxed()
}

pub fn c27(ctx: &mut Ctx) {
    let n = ctx.cases(40_000, 600_000);
    ctx.leg(
        "frames",
        "a generated frame pair of 9 to 15 bits in two-byte samples, some of which (planes, frames, \
         density, distance) are taken beyond the depth, scored by every metric; non-trivial if there \
         is such a sample and a metric that covers the pair",
        n,
        || over(geo((1, 48), 1, true, depth_over())),
        check_frames,
    );
    let n = ctx.cases(600, 10_000);
    ctx.leg(
        "long-sides",
        "the same with one side up to thousands of samples and a short other side; non-trivial as above",
        n,
        || over(geo_long(4400, 1, depth_over())),
        check_frames,
    );
    let n = ctx.cases(3_000, 50_000);
    ctx.leg(
        "clips",
        "clips of up to 24 frames, read from memory or from Y4M files, with such samples from some \
         frame on, on 1 to 8 threads; non-trivial if there is such a sample and the metric covers \
         the video",
        n,
        over_clip,
        check_clip,
    );
}

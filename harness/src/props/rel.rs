//! C11..C14: relations between results.

use super::frame::other;
use super::clip::{clips_of, fit, run, same_score, Clips};
use crate::metric::*;
use crate::mock::Mock;
use crate::pic::*;
use crate::run::*;
use av_metrics::video::Pixel;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

// ------------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Accept {
    metric: Metric,
    geo: Geo,
    /// Per-plane change of the size of the second frame.
    other: [(i8, i8); 3],
    wide: bool,
    depth: usize,
    pats: [Pat; 3],
    layout: Layout,
}

fn resize(r: &mut RawPlane, dw: i8, dh: i8) -> bool {
    if r.is_empty() || (dw, dh) == (0, 0) {
        return false;
    }
    let w = (r.w as i64 + dw as i64).max(1) as usize;
    let h = (r.h as i64 + dh as i64).max(1) as usize;
    if (w, h) == (r.w, r.h) {
        return false;
    }
    let mut d = vec![0; w * h];
    for y in 0..h {
        for x in 0..w {
            d[y * w + x] = r.at(x.min(r.w - 1), y.min(r.h - 1)) as u16;
        }
    }
    *r = RawPlane { w, h, d };
    true
}

fn check_accept(c: &Accept) -> CaseResult {
    // Samples fit the narrower of the stated depth and the sample type.
    let content = Geo {
        depth: if c.wide { c.depth.max(8) } else { 8 },
        ..c.geo
    };
    let a = Raw::render(content, &c.pats, &[]);
    let mut b = a.clone();
    let mut mismatch = false;
    for p in 0..3 {
        mismatch |= resize(&mut b.planes[p], c.other[p].0, c.other[p].1);
    }
    fn go<T: Pixel>(c: &Accept, a: &Raw, b: &Raw) -> Result<Result<Score, String>, String> {
        let (fa, fb) = (a.frame::<T>(&c.layout), b.frame::<T>(&other(&c.layout)));
        guarded(|| frame_score_t(c.metric, &fa, &fb, c.depth, c.geo.cs.lib()))
    }
    let got = if c.wide {
        go::<u16>(c, &a, &b)
    } else {
        go::<u8>(c, &a, &b)
    };
    let what = format!(
        "{:?} of {:?}, {} bits in {}-byte samples",
        c.metric,
        c.geo,
        c.depth,
        1 + c.wide as usize
    );
    let got = got.map_err(|e| format!("{what}: {e}"))?;
    let wrong_type = c.wide != (c.depth > 8);
    let min = match c.metric {
        Metric::Hvs => 8,
        Metric::Msssim => 16,
        _ => 1,
    };
    let small = |r: &Raw| r.planes.iter().any(|p| !p.is_empty() && (p.w < min || p.h < min));
    let too_small = small(&a);
    let bad_depth = matches!(c.metric, Metric::Ciede | Metric::CiedeScalar)
        && ![8, 10, 12].contains(&c.depth);
    let reject = mismatch || wrong_type || too_small || bad_depth;
    match (&got, reject) {
        (Ok(s), true) => Err(format!(
            "{what} gives the score {s:?} although{}{}{}{}",
            if mismatch { " the planes have different sizes" } else { "" },
            if wrong_type { " the bit depth does not fit the sample type" } else { "" },
            if too_small { " a plane is too small" } else { "" },
            if bad_depth { " the bit depth is not supported" } else { "" },
        )),
        (Err(e), false) => Err(format!("{what} is rejected: {e}")),
        _ => Ok(Info::new(reject || c.geo.cs == Cs::C400 || a.geo.w < 24 || a.geo.h < 24)
            .tag_if(mismatch, "different sizes")
            .tag_if(wrong_type, "wrong sample type")
            .tag_if(too_small, "too small")
            .tag_if(bad_depth, "unsupported depth")
            .tag_if(!reject, "accepted")
            .tag_if(mismatch && c.other[0] == (0, 0), "only chroma sizes differ")),
    }
}

fn accept() -> BoxedStrategy<Accept> {
    let m = prop::sample::select(vec![
        Metric::Psnr,
        Metric::Hvs,
        Metric::Ssim,
        Metric::Msssim,
        Metric::Ciede,
        Metric::CiedeScalar,
    ]);
    let d = || prop_oneof![4 => Just(0i8), 2 => Just(1), 2 => Just(-1), 1 => -9i8..=9];
    let other = prop_oneof![
        3 => Just([(0i8, 0i8); 3]),
        1 => (d(), d()).prop_map(|a| [a, (0, 0), (0, 0)]),
        1 => (d(), d()).prop_map(|a| [(0, 0), a, (0, 0)]),
        1 => (d(), d()).prop_map(|a| [(0, 0), (0, 0), a]),
        1 => (d(), d(), d(), d(), d(), d()).prop_map(|(a, b, c, d, e, f)| [(a, b), (c, d), (e, f)]),
    ];
    (
        m,
        geo((1, 50), 1, true, Just(8usize).boxed()),
        other,
        // The sample type fits the depth three times out of four.
        prop_oneof![3 => Just(None), 1 => any::<bool>().prop_map(Some)],
        prop_oneof![4 => Just(8usize), 6 => 9usize..=16],
        pats(),
        layout(),
    )
        .prop_map(|(metric, mut geo, other, wide, depth, pats, layout)| {
            geo.depth = depth;
            Accept {
                metric,
                geo,
                other,
                wide: wide.unwrap_or(depth > 8),
                depth,
                pats,
                layout,
            }
        })
        .boxed()
}

pub fn c11(ctx: &mut Ctx) {
    let n = ctx.cases(120_000, 2_000_000);
    ctx.leg(
        "table",
        "a metric, two frames (sizes from 1x1, any plane of the second may have another size), a \
         stated depth of 8 to 16 and a sample type; error or score as the rule says; non-trivial \
         if the pair must be rejected, is monochrome or small",
        n,
        accept,
        check_accept,
    );
}

// ------------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sym {
    metric: Metric,
    pair: Pair,
}

/// Equality of the two directions: exact sums give exactly the same, CIEDE2000
/// is computed in single precision.
fn mirrored(m: Metric, a: &Score, b: &Score) -> bool {
    match m {
        Metric::Ciede | Metric::CiedeScalar => {
            let d = |s: &Score| 10f64.powf((45.0 - s.single()) / 20.0);
            (d(a) - d(b)).abs() <= 1e-4 + 1e-5 * d(a).max(d(b))
        }
        _ => same_score(m, a, b),
    }
}

fn best(m: Metric, s: &Score) -> bool {
    match m {
        Metric::Hvs | Metric::Ssim | Metric::Msssim => s.values().iter().all(|v| *v >= 100.0),
        _ => s.values().iter().all(|v| *v == 100.0),
    }
}

fn capped(m: Metric, s: &Score) -> bool {
    matches!(m, Metric::Hvs | Metric::Ssim | Metric::Msssim)
        || s.values().iter().all(|v| *v <= 100.0)
}

fn check_sym(c: &Sym) -> CaseResult {
    let (a, b) = c.pair.raws();
    let l = c.pair.layout;
    let m = c.metric;
    let ab = frame_score(m, &a, &b, &l, &l)?;
    let ba = frame_score(m, &b, &a, &l, &l)?;
    if ab.values().iter().chain(&ba.values()).any(|v| v.is_nan()) {
        return Err(format!("{m:?} is not a number: {ab:?}, swapped {ba:?}"));
    }
    if !mirrored(m, &ab, &ba) {
        return Err(format!("{m:?} is {ab:?}, but {ba:?} for swapped frames"));
    }
    for r in [&a, &b] {
        let i = frame_score(m, r, r, &l, &l)?;
        if !best(m, &i) {
            return Err(format!("{m:?} of a frame and itself is {i:?}"));
        }
    }
    if !capped(m, &ab) {
        return Err(format!("{m:?} is {ab:?}, better than identical input"));
    }
    if a == b && !best(m, &ab) {
        return Err(format!("{m:?} of equal frames is {ab:?}"));
    }
    let negative = ab.values().iter().any(|v| *v < 0.0);
    Ok(Info::new(a != b)
        .tag_if(negative, "negative score")
        .tag_if(ab.values().iter().any(|v| *v > 60.0), "score above 60"))
}

fn frame_metric() -> BoxedStrategy<Metric> {
    prop::sample::select(FRAME_METRICS.to_vec()).boxed()
}

fn fit_pair(m: Metric, mut p: Pair) -> (Metric, Pair) {
    if m == Metric::Ciede && ![8, 10, 12].contains(&p.geo.depth) {
        p.geo.depth = 12;
    }
    let min = match m {
        Metric::Hvs => 8,
        Metric::Msssim => 16,
        _ => 1,
    };
    let (x, y) = p.geo.cs.dec();
    p.geo.w = p.geo.w.max(min << x);
    p.geo.h = p.geo.h.max(min << y);
    (m, p)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SymClip {
    metric: Metric,
    clips: Clips,
}

fn check_sym_clip(c: &SymClip) -> CaseResult {
    let (a, b) = c.clips.raws();
    let m = c.metric;
    let (a, b) = (Arc::new(a), Arc::new(b));
    let score = |x: &Arc<Vec<Raw>>, y: &Arc<Vec<Raw>>| -> Result<Score, String> {
        let (m1, m2) = (Mock::new(c.clips.geo, x.clone()), Mock::new(c.clips.geo, y.clone()));
        run(m, 3, m1, m2, None, |_| {})?
            .0
            .map_err(|e| format!("{m:?} of clips fails: {e}"))
    };
    let ab = score(&a, &b)?;
    let ba = score(&b, &a)?;
    if ab.values().iter().chain(&ba.values()).any(|v| v.is_nan()) {
        return Err(format!("{m:?} of clips is not a number: {ab:?}, swapped {ba:?}"));
    }
    if !mirrored(m, &ab, &ba) {
        return Err(format!("{m:?} of clips is {ab:?}, but {ba:?} when swapped"));
    }
    for r in [&a, &b] {
        let i = score(r, r)?;
        if !best(m, &i) {
            return Err(format!("{m:?} of a clip and itself is {i:?}"));
        }
    }
    if !capped(m, &ab) {
        return Err(format!("{m:?} of clips is {ab:?}, better than identical clips"));
    }
    Ok(Info::new(c.clips.b.iter().any(|d| *d != Diff::Same)).tag_if(c.clips.common() > 1, "several frames"))
}

pub fn c12(ctx: &mut Ctx) {
    let n = ctx.cases(80_000, 1_500_000);
    ctx.leg(
        "frames",
        "a metric and a generated frame pair, scored in both directions and against themselves; \
         non-trivial if the frames differ",
        n,
        || {
            (frame_metric(), pair_of(geo((1, 60), 1, true, depth_any())))
                .prop_map(|(m, p)| {
                    let (metric, pair) = fit_pair(m, p);
                    Sym { metric, pair }
                })
                .boxed()
        },
        check_sym,
    );
    let n = ctx.cases(1_500, 30_000);
    ctx.leg(
        "long-sides",
        "the same with one side up to thousands of samples and a short other side; non-trivial as above",
        n,
        || {
            (frame_metric(), pair_of(geo_long(2_200, 1, depth_any())))
                .prop_map(|(m, p)| {
                    let (metric, pair) = fit_pair(m, p);
                    Sym { metric, pair }
                })
                .boxed()
        },
        check_sym,
    );
    let n = ctx.cases(4_000, 80_000);
    ctx.leg(
        "clips",
        "the same with clips of 1 to 8 frames; non-trivial if any frame differs",
        n,
        || {
            (
                super::clip::metric(),
                clips_of(geo((16, 36), 16, true, depth_any()), 1, 8),
            )
                .prop_map(|(m, c)| {
                    let (metric, clips) = fit(m, c);
                    SymClip { metric, clips }
                })
                .boxed()
        },
        check_sym_clip,
    );
}

// ------------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Relayout {
    metric: Metric,
    pair: Pair,
    second: Layout,
    /// Padding contents of the second frame.
    fill: u32,
}

fn check_relayout(c: &Relayout) -> CaseResult {
    let (a, b) = c.pair.raws();
    let m = c.metric;
    let plain = Layout::default();
    let s0 = frame_score(m, &a, &b, &plain, &plain)?;
    for l in [c.pair.layout, c.second] {
        // Both frames have the same layout, or each its own.
        for lb in [l, Layout::default(), c.second, c.pair.layout] {
            let lb = Layout { fill: c.fill, ..lb };
            let s = frame_score(m, &a, &b, &l, &lb)?;
            if !same_score(m, &s0, &s) {
                return Err(format!("{m:?} is {s0:?} without padding and {s:?} with the layouts {l:?} and {lb:?}"));
            }
        }
    }
    let padded = |l: &Layout| l.xpad + l.ypad + l.left + l.top + l.right + l.bottom > 0;
    Ok(Info::new(a != b && (padded(&c.pair.layout) || padded(&c.second)))
        .tag_if(c.pair.layout.left > 0 || c.pair.layout.xpad > 0, "left padding")
        .tag_if(c.pair.layout.top > 0 || c.pair.layout.ypad > 0, "top padding"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Visible {
    metric: Metric,
    geo: Geo,
    base: [u16; 3],
    at: Edit,
}

fn check_visible(c: &Visible) -> CaseResult {
    // A mid-grey picture of some colour, and one sample that is far off.
    let base = c.base.map(|v| Pat::Flat(26000 + v % 12000));
    let a = Raw::render(c.geo, &base, &[]);
    let plane = if c.geo.cs == Cs::C400 { 0 } else { c.at.plane % 3 };
    let e = Edit { plane, v: if c.at.v & 1 == 0 { 2000 } else { 63000 }, ..c.at };
    let b = a.derive(&Diff::Edits(vec![e]));
    let l = Layout::default();
    let m = c.metric;
    let same = frame_score(m, &a, &a, &l, &l)?;
    let s = frame_score(m, &a, &b, &l, &l)?;
    let (x, y) = (
        e.x as usize % a.planes[plane as usize].w,
        e.y as usize % a.planes[plane as usize].h,
    );
    let (v0, v1) = match m {
        Metric::Ciede => (same.single(), s.single()),
        _ => (same.planes()[plane as usize], s.planes()[plane as usize]),
    };
    if !(v1 < v0) {
        return Err(format!(
            "{m:?} does not notice a sample that is far off at ({x},{y}) of plane {plane}: {v1}"
        ));
    }
    let (w, h) = (a.planes[plane as usize].w, a.planes[plane as usize].h);
    Ok(Info::new(x + 8 >= w || y + 8 >= h || x == 0 || y == 0)
        .tag_if(x + 1 == w, "last column")
        .tag_if(y + 1 == h, "last row"))
}

pub fn c13(ctx: &mut Ctx) {
    let n = ctx.cases(35_000, 700_000);
    ctx.leg(
        "relayout",
        "a metric, a frame pair and two memory layouts (padding on every side, strides, windows \
         into larger planes, arbitrary padding contents that differ between the frames; the same \
         layout for both frames, or each its own) against \
         the plain layout; non-trivial if the frames differ and a layout is padded",
        n,
        || {
            (
                frame_metric(),
                pair_of(geo((1, 70), 1, true, depth_any())),
                layout(),
                any::<u32>(),
            )
                .prop_map(|(m, p, second, fill)| {
                    let (metric, pair) = fit_pair(m, p);
                    Relayout { metric, pair, second, fill }
                })
                .boxed()
        },
        check_relayout,
    );
    let n = ctx.cases(60_000, 1_200_000);
    ctx.leg(
        "every-sample",
        "a flat picture and a copy with one sample that is far off, anywhere; PSNR, SSIM, MS-SSIM \
         and CIEDE2000 must drop; non-trivial if the sample is within 8 of an edge",
        n,
        || {
            (
                prop::sample::select(vec![
                    Metric::Psnr,
                    Metric::Ssim,
                    Metric::Msssim,
                    Metric::Ciede,
                ]),
                geo((1, 64), 1, true, depth_video()),
                any::<[u16; 3]>(),
                one_sample(),
            )
                .prop_map(|(metric, geo, base, at)| visible(metric, geo, base, at))
                .boxed()
        },
        check_visible,
    );
    let n = ctx.cases(300, 6_000);
    ctx.leg(
        "every-sample-large",
        "the same for PSNR, SSIM and MS-SSIM (CIEDE2000 is capped there) with the sizes of films, up to \
         1920x1080, and with one long side; always non-trivial",
        n,
        || {
            (
                prop::sample::select(vec![Metric::Psnr, Metric::Ssim, Metric::Msssim]),
                prop_oneof![1 => geo_full(1930, depth_video()), 8 => geo_long(4_400, 1, depth_video())],
                any::<[u16; 3]>(),
                one_sample(),
            )
                .prop_map(|(metric, geo, base, at)| visible(metric, geo, base, at))
                .boxed()
        },
        |c| check_visible(c).map(|_| Info::new(true).tag_if(c.geo.w.min(c.geo.h) > 200, "film size")),
    );
    let n = ctx.cases(800, 15_000);
    ctx.leg(
        "relayout-long",
        "as relayout with one side up to thousands of samples; non-trivial as there",
        n,
        || {
            (
                frame_metric(),
                pair_of(geo_long(2_200, 1, depth_any())),
                layout(),
                any::<u32>(),
            )
                .prop_map(|(m, p, second, fill)| {
                    let (metric, pair) = fit_pair(m, p);
                    Relayout { metric, pair, second, fill }
                })
                .boxed()
        },
        check_relayout,
    );
}

fn one_sample() -> BoxedStrategy<Edit> {
    (0u8..3, near_edge(), near_edge(), any::<u16>())
        .prop_map(|(plane, x, y, v)| Edit { plane, x, y, v })
        .boxed()
}

fn visible(metric: Metric, mut geo: Geo, base: [u16; 3], mut at: Edit) -> Visible {
    if metric == Metric::Msssim {
        let (x, y) = geo.cs.dec();
        geo.w = geo.w.max(16 << x);
        geo.h = geo.h.max(16 << y);
    }
    // Counted from the end if odd.
    let p = if geo.cs == Cs::C400 { 0 } else { at.plane as usize % 3 };
    let (w, h) = geo.dims(p);
    let place = |v: u16, n: usize| {
        let k = (v / 2) as usize % n;
        (if v & 1 == 1 { n - 1 - k } else { k }) as u16
    };
    at.x = place(at.x, w);
    at.y = place(at.y, h);
    Visible { metric, geo, base, at }
}

fn near_edge() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0u16..16, 2 => any::<u16>()].boxed()
}

// ------------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Indep {
    metric: Metric,
    pair: Pair,
    plane: u8,
    /// Replaces the plane of the first, the second, or both frames.
    first: bool,
    second: bool,
    with: Pat,
}

fn check_indep(c: &Indep) -> CaseResult {
    let (a, b) = c.pair.raws();
    let m = c.metric;
    let l = c.pair.layout;
    let p = c.plane as usize % 3;
    let repl = |r: &Raw, yes: bool| {
        let mut o = r.clone();
        if yes {
            let mut pats = c.pair.a;
            pats[p] = c.with;
            o.planes[p] = Raw::render(r.geo, &pats, &[]).planes[p].clone();
        }
        o
    };
    let (a2, b2) = (repl(&a, c.first), repl(&b, c.second));
    let s = frame_score(m, &a, &b, &l, &l)?;
    let t = frame_score(m, &a2, &b2, &l, &l)?;
    for k in 0..3 {
        let (x, y) = (s.planes()[k], t.planes()[k]);
        if k != p && !close(m, x, y) {
            return Err(format!(
                "{m:?} of plane {k} changes from {x} to {y} when plane {p} changes"
            ));
        }
    }
    Ok(Info::new((a2 != a || b2 != b) && a != b))
}

static KNOWN_HVS: AtomicU64 = AtomicU64::new(0);

fn check_average(m: Metric, g: Geo, s: &Score) -> Result<(), String> {
    let w = g.cs.weight();
    let p = s.planes().map(linear);
    let want = (p[0] + w * (p[1] + p[2])) / (1.0 + 2.0 * w);
    let got = linear(s.avg());
    let close = |x: f64, y: f64| (x - y).abs() <= 1e-9 * y.abs() + 1e-12;
    if !close(got, want) {
        // Known finding hvs-average: multiplied instead of divided by the
        // weight; exactly that and nothing else.
        if m == Metric::Hvs && close(got, want * (1.0 + 2.0 * w).powi(2)) {
            KNOWN_HVS.fetch_add(1, Ordering::Relaxed);
            return Ok(());
        }
        return Err(format!(
            "{m:?} average of {s:?} should be {} (weight {w})",
            -10.0 * want.log10()
        ));
    }
    let lo = s.planes().iter().fold(f64::INFINITY, |a, b| a.min(*b));
    let hi = s.planes().iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b));
    if s.avg() < lo - 1e-6 || s.avg() > hi + 1e-6 {
        // At similarities within rounding of 1 the scores themselves are rounding.
        if lo < 110.0 {
            return Err(format!("{m:?} average outside of the plane scores: {s:?}"));
        }
    }
    Ok(())
}

fn planar_metric() -> BoxedStrategy<Metric> {
    prop::sample::select(vec![Metric::Hvs, Metric::Ssim, Metric::Msssim]).boxed()
}

pub fn c14(ctx: &mut Ctx) {
    let n = ctx.cases(60_000, 1_000_000);
    ctx.leg(
        "independent",
        "PSNR, PSNR-HVS, SSIM or MS-SSIM of a frame pair before and after replacing one plane of \
         either or both frames: the other planes' scores must be the same bits; non-trivial if the \
         replacement changes something and the frames differ",
        n,
        || {
            (
                prop_oneof![3 => planar_metric(), 1 => Just(Metric::Psnr)],
                pair_of(geo((1, 56), 1, false, depth_any())),
                0u8..3,
                (any::<bool>(), any::<bool>()),
                pat(),
            )
                .prop_map(|(m, p, plane, (first, second), with)| {
                    let (metric, pair) = fit_pair(m, p);
                    Indep { metric, pair, plane, first, second: second || !first, with }
                })
                .boxed()
        },
        check_indep,
    );
    let n = ctx.cases(800, 15_000);
    ctx.leg(
        "independent-long",
        "the same with one side up to thousands of samples and a short other side; non-trivial as above",
        n,
        || {
            (
                prop_oneof![3 => planar_metric(), 1 => Just(Metric::Psnr)],
                pair_of(geo_long(2_200, 1, depth_any())),
                0u8..3,
                (any::<bool>(), any::<bool>()),
                pat(),
            )
                .prop_map(|(m, mut p, plane, (first, second), with)| {
                    if p.geo.cs == Cs::C400 {
                        p.geo.cs = Cs::C444;
                    }
                    let (metric, pair) = fit_pair(m, p);
                    Indep { metric, pair, plane, first, second: second || !first, with }
                })
                .boxed()
        },
        check_indep,
    );
    let n = ctx.cases(60_000, 1_000_000);
    ctx.leg(
        "average",
        "the average of SSIM, MS-SSIM and PSNR-HVS against the plane scores of the same result; \
         non-trivial if the plane scores differ",
        n,
        || {
            (planar_metric(), pair_of(geo((1, 56), 1, true, depth_any())))
                .prop_map(|(m, p)| {
                    let (metric, pair) = fit_pair(m, p);
                    Sym { metric, pair }
                })
                .boxed()
        },
        |c| {
            let (a, b) = c.pair.raws();
            let l = c.pair.layout;
            let s = frame_score(c.metric, &a, &b, &l, &l)?;
            check_average(c.metric, c.pair.geo, &s)?;
            let p = s.planes();
            Ok(Info::new(p[0] != p[1] || p[1] != p[2]).tag_if(c.pair.geo.cs == Cs::C400, "mono"))
        },
    );
    let n = ctx.cases(6_000, 100_000);
    ctx.leg(
        "clip-average",
        "the same for clips of 1 to 8 frames; non-trivial if the plane scores differ",
        n,
        || {
            (
                planar_metric(),
                clips_of(geo((16, 40), 16, true, depth_any()), 1, 8),
            )
                .prop_map(|(metric, clips)| SymClip { metric, clips })
                .boxed()
        },
        |c| {
            let (m1, m2) = c.clips.mocks();
            let s = run(c.metric, 4, m1, m2, None, |_| {})?
                .0
                .map_err(|e| format!("{:?} of clips fails: {e}", c.metric))?;
            check_average(c.metric, c.clips.geo, &s)?;
            let p = s.planes();
            Ok(Info::new(p[0] != p[1] || p[1] != p[2]))
        },
    );
    let n = KNOWN_HVS.load(Ordering::Relaxed);
    if n > 0 {
        ctx.known(
            "hvs-average",
            &format!(
                "the PSNR-HVS average is multiplied by 1+2w where it should be divided, so that \
                 it is off by exactly (1+2w)^2 on the linear scale (av_metrics/src/video/psnr_hvs.rs, \
                 calculate_frame_psnr_hvs and aggregate_frame_results; {n} cases of this run)"
            ),
        );
    }
}

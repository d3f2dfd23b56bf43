//! C01..C06: frame metrics against their reference models.

use crate::metric::*;
use crate::pic::*;
use crate::refm;
use crate::run::*;
use proptest::prelude::*;

const PAIR_RULE: &str = "generated frame pair (geometry, plane patterns, point edits, derivation of \
the second picture, memory layout); non-trivial if the pictures differ and at least one plane has \
a side that is not a multiple of 8 or is laid out with padding or a stride other than its width";

const LONG_RULE: &str = "the same with one side up to thousands of samples (common picture sizes, \
powers of two and their neighbours) and a short other side; non-trivial as above";

const FAR_RULE: &str = "the same with one side of up to 131073 samples (around powers of two) and a very \
short other side; non-trivial as above";

const FULL_RULE: &str = "the same with the sizes of films, up to 4095x2161; non-trivial as above";

fn odd_layout(p: &Pair) -> bool {
    p.geo.w % 64 != 0 || p.geo.h % 8 != 0 || p.layout != Layout::default()
}

fn info(p: &Pair, a: &Raw, b: &Raw) -> Info {
    Info::new(a != b && odd_layout(p))
        .tag_if(a == b, "identical")
        .tag_if(p.geo.cs == Cs::C400, "mono")
        .tag_if(p.geo.cs == Cs::C422, "4:2:2")
        .tag_if(p.geo.cs == Cs::C444, "4:4:4")
        .tag_if(p.geo.depth > 8, "high bit depth")
        .tag_if(p.geo.depth > 12, "above 12 bits")
        .tag_if(p.layout.left > 0 || p.layout.top > 0, "origin")
}

fn err(name: &str, what: &str, got: f64, want: f64) -> String {
    format!("{name} {what} is {got:.12}, the definition gives {want:.12}")
}

const PLANES: [&str; 3] = ["Y", "U", "V"];

/// The layout of the second frame: other padding contents, and every third time
/// also another amount of padding.
pub(super) fn other(l: &Layout) -> Layout {
    let o = Layout { fill: l.fill.wrapping_mul(2654435761).wrapping_add(12345), ..*l };
    match l.fill % 6 {
        0 => Layout { left: l.right % 16, right: l.left, top: l.bottom, bottom: l.top, xpad: 0, ..o },
        1 => Layout { right: l.right.wrapping_add(9), ypad: l.ypad / 2, ..o },
        _ => o,
    }
}

fn check_psnr(p: &Pair) -> CaseResult {
    let (a, b) = p.raws();
    let s = frame_score(Metric::Psnr, &a, &b, &p.layout, &other(&p.layout))?;
    let parts = refm::psnr_parts(&a, &b);
    for i in 0..3 {
        let want = refm::psnr(parts[i].0, parts[i].1, p.geo.depth);
        let got = s.planes()[i];
        if parts[i].0 == 0 && got != 100.0 {
            return Err(err("PSNR", &format!("of identical {} planes", PLANES[i]), got, 100.0));
        }
        if !same(got, want) {
            return Err(err("PSNR", PLANES[i], got, want));
        }
    }
    let want = refm::psnr(
        parts.iter().map(|x| x.0).sum(),
        parts.iter().map(|x| x.1).sum(),
        p.geo.depth,
    );
    if !same(s.avg(), want) {
        return Err(err("PSNR", "average", s.avg(), want));
    }
    if s.values().iter().any(|v| *v > 100.0) {
        return Err(format!("PSNR above 100: {s:?}"));
    }
    let capped = parts.iter().any(|x| {
        x.0 > 0 && refm::psnr(x.0, x.1, p.geo.depth) == 100.0
    });
    Ok(info(p, &a, &b).tag_if(capped, "capped"))
}

/// Pairs that differ in very few, far too little: near the cap of 100.
fn near_identical(sides: (usize, usize)) -> BoxedStrategy<Pair> {
    (
        geo(sides, 1, true, prop_oneof![Just(8usize), Just(12), Just(14), Just(16)].boxed()),
        pats(),
        prop::collection::vec((0u8..3, any::<u16>(), any::<u16>(), any::<u16>()), 1..3),
        layout(),
    )
        .prop_map(|(geo, mut a, e, layout)| {
            for p in &mut a {
                *p = Pat::Flat(match *p {
                    Pat::Flat(v) => v,
                    _ => 30000,
                });
            }
            // one step away from the flat value
            let step = 65535 / geo.max() as i32 + 1;
            let edits = e
                .into_iter()
                .map(|(plane, x, y, v)| {
                    let Pat::Flat(f) = a[plane as usize] else { unreachable!() };
                    let d = if v & 1 == 0 { step } else { -step };
                    let v = f as i32 + d;
                    Edit { plane, x, y, v: if (0..=65535).contains(&v) { v } else { f as i32 - d } as u16 }
                })
                .collect();
            Pair { geo, a, edits: vec![], diff: Diff::Edits(edits), layout }
        })
        .boxed()
}

pub fn c01(ctx: &mut Ctx) {
    let n = ctx.cases(200_000, 3_000_000);
    ctx.leg(
        "small",
        PAIR_RULE,
        n,
        || pair_of(geo((1, 140), 1, true, depth_any())),
        check_psnr,
    );
    let n = ctx.cases(6_000, 100_000);
    ctx.leg(
        "large",
        PAIR_RULE,
        n,
        || pair_of(geo((100, 900), 1, true, depth_any())),
        check_psnr,
    );
    let n = ctx.cases(6_000, 100_000);
    ctx.leg(
        "long-sides",
        LONG_RULE,
        n,
        || pair_of(geo_long(8200, 1, depth_any())),
        check_psnr,
    );
    let n = ctx.cases(30_000, 300_000);
    ctx.leg(
        "cap",
        "pairs of flat pictures that differ by one step in one or two samples; non-trivial as above",
        n,
        || near_identical((1, 400)),
        check_psnr,
    );
    let n = ctx.cases(160, 2000);
    ctx.leg("far-sides", FAR_RULE, n, || pair_of(geo_far(1, None, depth_any())), check_psnr);
    let n = ctx.cases(24, 300);
    ctx.leg("full-size", FULL_RULE, n, || pair_of(geo_full(4100, depth_any())), check_psnr);
}

fn check_hvs(p: &Pair) -> CaseResult {
    let (a, b) = p.raws();
    let s = frame_score(Metric::Hvs, &a, &b, &p.layout, &other(&p.layout))?;
    let mut masked = false;
    for i in 0..3 {
        let (want, scale) = refm::hvs_plane(&a.planes[i], &b.planes[i], i, p.geo.depth);
        let got = s.planes()[i];
        let e = linear(got);
        if !((e - want).abs() <= 1e-9 * want + 1e-11 * scale) {
            return Err(err("PSNR-HVS", PLANES[i], got, -10.0 * want.log10()));
        }
        masked |= want < scale * 0.999;
    }
    Ok(info(p, &a, &b).tag_if(masked, "masking active"))
}

pub fn c02(ctx: &mut Ctx) {
    let n = ctx.cases(200_000, 3_000_000);
    ctx.leg(
        "small",
        PAIR_RULE,
        n,
        || pair_of(geo((8, 96), 8, true, depth_any())),
        check_hvs,
    );
    let n = ctx.cases(6_000, 90_000);
    ctx.leg(
        "large",
        PAIR_RULE,
        n,
        || pair_of(geo((64, 400), 8, true, depth_any())),
        check_hvs,
    );
    let n = ctx.cases(2_000, 40_000);
    ctx.leg(
        "long-sides",
        LONG_RULE,
        n,
        || pair_of(geo_long(5000, 8, depth_any())),
        check_hvs,
    );
    let n = ctx.cases(64, 600);
    ctx.leg("far-sides", FAR_RULE, n, || pair_of(geo_far(8, None, depth_any())), check_hvs);
    let n = ctx.cases(8, 160);
    ctx.leg("full-size", FULL_RULE, n, || pair_of(geo_full(2100, depth_any())), check_hvs);
}

fn check_similarity(m: Metric, p: &Pair) -> CaseResult {
    let (a, b) = p.raws();
    let s = frame_score(m, &a, &b, &p.layout, &other(&p.layout))?;
    let mut negative = false;
    for i in 0..3 {
        let want = match m {
            Metric::Ssim => refm::ssim_plane(&a.planes[i], &b.planes[i], p.geo.depth),
            _ => refm::msssim_plane(&a.planes[i], &b.planes[i], p.geo.depth),
        };
        negative |= want <= 0.0;
        let got = s.planes()[i];
        let d = linear(got);
        // Written so that NaN fails.
        if !((d - (1.0 - want)).abs() <= 2e-10) {
            return Err(err(
                &format!("{m:?}"),
                PLANES[i],
                got,
                -10.0 * (1.0 - want).max(0.0).log10(),
            ));
        }
    }
    Ok(info(p, &a, &b).tag_if(negative, "negative similarity"))
}

/// Tall planes have wide windows.
fn tall() -> BoxedStrategy<Geo> {
    (1usize..60, prop_oneof![2 => 100usize..900, 1 => 900usize..2300], cs(true), depth_any())
        .prop_map(|(w, h, cs, depth)| Geo { w, h, cs, depth })
        .boxed()
}

pub fn c03(ctx: &mut Ctx) {
    let n = ctx.cases(60_000, 600_000);
    ctx.leg(
        "small",
        PAIR_RULE,
        n,
        || pair_of(geo((1, 110), 1, true, depth_any())),
        |p| check_similarity(Metric::Ssim, p),
    );
    let n = ctx.cases(2_000, 40_000);
    ctx.leg("tall", PAIR_RULE, n, || pair_of(tall()), |p| {
        check_similarity(Metric::Ssim, p)
    });
    let n = ctx.cases(300, 6_000);
    ctx.leg(
        "large",
        PAIR_RULE,
        n,
        || pair_of(geo((150, 700), 1, true, depth_any())),
        |p| check_similarity(Metric::Ssim, p),
    );
    let n = ctx.cases(240, 5_000);
    ctx.leg(
        "long-sides",
        LONG_RULE,
        n,
        || pair_of(geo_long(4400, 1, depth_any())),
        |p| check_similarity(Metric::Ssim, p),
    );
    let n = ctx.cases(32, 600);
    ctx.leg("far-sides", FAR_RULE, n, || pair_of(geo_far(1, Some(true), depth_any())), |p| check_similarity(Metric::Ssim, p));
    let n = ctx.cases(6, 120);
    ctx.leg("full-size", FULL_RULE, n, || pair_of(geo_full(1930, depth_any())), |p| check_similarity(Metric::Ssim, p));
}

pub fn c04(ctx: &mut Ctx) {
    let n = ctx.cases(24_000, 300_000);
    ctx.leg(
        "small",
        PAIR_RULE,
        n,
        || pair_of(geo((16, 100), 16, true, depth_any())),
        |p| check_similarity(Metric::Msssim, p),
    );
    let n = ctx.cases(600, 8_000);
    ctx.leg(
        "large",
        PAIR_RULE,
        n,
        || pair_of(geo((90, 420), 16, true, depth_any())),
        |p| check_similarity(Metric::Msssim, p),
    );
    let n = ctx.cases(300, 5_000);
    ctx.leg(
        "long-sides",
        LONG_RULE,
        n,
        || pair_of(geo_long(4400, 16, depth_any())),
        |p| check_similarity(Metric::Msssim, p),
    );
    let n = ctx.cases(16, 300);
    ctx.leg("far-sides", FAR_RULE, n, || pair_of(geo_far(16, None, depth_any())), |p| check_similarity(Metric::Msssim, p));
    let n = ctx.cases(6, 120);
    ctx.leg("full-size", FULL_RULE, n, || pair_of(geo_full(1930, depth_any())), |p| check_similarity(Metric::Msssim, p));
}

fn ciede_d(score: f64) -> f64 {
    10f64.powf((45.0 - score) / 20.0)
}

/// D below this scores 100.
pub fn ciede_floor() -> f64 {
    ciede_d(100.0)
}

fn check_ciede(p: &Pair) -> CaseResult {
    let (a, b) = p.raws();
    ciede_against_formula(p, &a, &b)
}

/// Large pictures of four levels per plane: the formula knows few pairs.
fn check_ciede_levels(p: &Pair) -> CaseResult {
    let (a, b) = p.raws();
    let d = p.geo.depth;
    let few = |r: &Raw| r.map_planes(7, |q, _, _, v| (v >> (d - 2) << (d - 2)) + (7 + 11 * q as u32));
    ciede_against_formula(p, &few(&a), &few(&b))
}

fn ciede_against_formula(p: &Pair, a: &Raw, b: &Raw) -> CaseResult {
    let (want, err) = refm::ciede_mean(a, b);
    let mut i = info(p, a, b);
    for m in [Metric::Ciede, Metric::CiedeScalar] {
        let got = frame_score(m, a, b, &p.layout, &other(&p.layout))?.single();
        if !(got <= 100.0) {
            return Err(format!("{m:?} score {got} is above 100"));
        }
        let d = ciede_d(got);
        let want = want.max(ciede_floor());
        let tolerance = err + 3e-5 + 3e-6 * want;
        if std::env::var_os("AVP_MEASURE").is_some() {
            measure((d - want) / tolerance, want);
        }
        if !((d - want).abs() <= tolerance) {
            return Err(format!(
                "{m:?} score {got:.9} means a mean difference of {d:.9}, the formula gives {want:.9}"
            ));
        }
        i = i.tag_if(want < 0.1, "difference below 0.1").tag_if(want > 30.0, "difference above 30");
    }
    Ok(i)
}

fn measure(err: f64, want: f64) {
    use std::sync::Mutex;
    static W: Mutex<[f64; 12]> = Mutex::new([0.0; 12]);
    let k = ((want.log10() * 2.0).floor() as i32 + 6).clamp(0, 11) as usize;
    let mut w = W.lock().unwrap();
    if err.abs() > w[k] {
        w[k] = err.abs();
        println!("worst errors by half decade of D from 1e-3: {:?}", *w);
    }
}

/// One colour against another: the mean is the difference itself.
fn colour_pair() -> BoxedStrategy<Pair> {
    let comp = || prop_oneof![6 => any::<u16>(), 1 => Just(0u16), 1 => Just(65535), 2 => 32000u16..33600];
    let near = (comp(), comp(), comp(), -900i32..900, -900i32..900, -900i32..900).prop_map(
        |(y, u, v, a, b, c)| {
            let f = |x: u16, d: i32| Pat::Flat((x as i32 + d).clamp(0, 65535) as u16);
            (
                [Pat::Flat(y), Pat::Flat(u), Pat::Flat(v)],
                [f(y, a), f(u, b), f(v, c)],
            )
        },
    );
    let far = (comp(), comp(), comp(), comp(), comp(), comp()).prop_map(|(a, b, c, d, e, f)| {
        (
            [Pat::Flat(a), Pat::Flat(b), Pat::Flat(c)],
            [Pat::Flat(d), Pat::Flat(e), Pat::Flat(f)],
        )
    });
    let grey = (comp(), comp(), -300i32..300).prop_map(|(a, b, d)| {
        let n = Pat::Flat(32896); // the neutral value at 8, 10 and 12 bits
        let m = Pat::Flat((32896 + d) as u16);
        ([Pat::Flat(a), n, n], [Pat::Flat(b), m, n])
    });
    (
        prop_oneof![3 => far, 4 => near, 2 => grey],
        1usize..18,
        1usize..4,
        cs(true),
        depth_video(),
        layout(),
    )
        .prop_map(|((a, b), w, h, cs, depth, layout)| Pair {
            geo: Geo { w, h, cs, depth },
            a,
            edits: vec![],
            diff: Diff::Fresh(b),
            layout,
        })
        .boxed()
}

pub fn c05(ctx: &mut Ctx) {
    let n = ctx.cases(500_000, 6_000_000);
    ctx.leg(
        "colours",
        "pairs of flat pictures (one colour against another: near, far, grey, saturated, out of \
         gamut); non-trivial if the colours differ and the rows end in a partial vector or the \
         layout is padded",
        n,
        colour_pair,
        check_ciede,
    );
    let n = ctx.cases(16_000, 300_000);
    ctx.leg(
        "pictures",
        PAIR_RULE,
        n,
        || pair_of(geo((1, 70), 1, true, depth_video())),
        check_ciede,
    );
    let n = ctx.cases(1_000, 20_000);
    ctx.leg(
        "long-sides",
        LONG_RULE,
        n,
        || pair_of(geo_long(4400, 1, depth_video())),
        check_ciede,
    );
    let n = ctx.cases(32, 600);
    ctx.leg("far-sides", FAR_RULE, n, || pair_of(geo_far(1, None, depth_video())), check_ciede);
    let n = ctx.cases(8, 160);
    ctx.leg("full-size", FULL_RULE, n, || pair_of(geo_full(4100, depth_video())), check_ciede_levels);
}

fn check_simd(p: &Pair) -> CaseResult {
    let (a, b) = p.raws();
    let s = frame_score(Metric::Ciede, &a, &b, &p.layout, &other(&p.layout))?.single();
    let t = frame_score(Metric::CiedeScalar, &a, &b, &p.layout, &other(&p.layout))?.single();
    let (ds, dt) = (ciede_d(s), ciede_d(t));
    if std::env::var_os("AVP_MEASURE").is_some() {
        measure(ds - dt, dt);
    }
    // Both are rounded, so the bound may be twice the error of one; it is only
    // worked out for the few pairs where the rounding shows.
    if !((ds - dt).abs() <= 1e-4 + 1e-5 * dt)
        && !((ds - dt).abs() <= 2.0 * refm::ciede_mean(&a, &b).1 + 6e-5 + 6e-6 * dt)
    {
        return Err(format!("vectorised score {s:.9}, portable score {t:.9}"));
    }
    Ok(Info::new(a != b && p.geo.w >= 8 && p.geo.cs.dec().0 == 1)
        .tag_if(p.geo.w % 8 != 0, "partial vector")
        .tag_if(p.geo.depth > 8, "high bit depth"))
}

pub fn c06(ctx: &mut Ctx) {
    if !std::is_x86_feature_detected!("avx2") {
        eprintln!("ERROR: this machine has no AVX2, the vectorised path cannot run");
        std::process::exit(3);
    }
    let n = ctx.cases(300_000, 4_000_000);
    ctx.leg(
        "colours",
        "pairs of flat pictures; non-trivial if they differ, the width holds a full vector and \
         chroma is horizontally subsampled (the vectorised case)",
        n,
        colour_pair,
        check_simd,
    );
    let n = ctx.cases(80_000, 1_000_000);
    ctx.leg(
        "pictures",
        "as C05; non-trivial as above",
        n,
        || pair_of(geo((1, 80), 1, true, depth_video())),
        check_simd,
    );
    let n = ctx.cases(2_000, 30_000);
    ctx.leg(
        "long-sides",
        LONG_RULE,
        n,
        || pair_of(geo_long(8200, 1, depth_video())),
        check_simd,
    );
    let n = ctx.cases(64, 1000);
    ctx.leg("far-sides", FAR_RULE, n, || pair_of(geo_far(1, None, depth_video())), check_simd);
    let n = ctx.cases(16, 200);
    ctx.leg("full-size", FULL_RULE, n, || pair_of(geo_full(1930, depth_video())), check_simd);
}

//! Generated pictures: small, serialisable specifications that shrink well,
//! and their rendering to samples and to frames of the library.

use av_metrics::video::{CastFromPrimitive, ChromaSampling, Frame, Pixel, Plane};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cs {
    C400,
    C420,
    C422,
    C444,
}

impl Cs {
    pub fn lib(self) -> ChromaSampling {
        match self {
            Cs::C400 => ChromaSampling::Cs400,
            Cs::C420 => ChromaSampling::Cs420,
            Cs::C422 => ChromaSampling::Cs422,
            Cs::C444 => ChromaSampling::Cs444,
        }
    }
    pub fn dec(self) -> (usize, usize) {
        match self {
            Cs::C400 => (0, 0),
            Cs::C420 => (1, 1),
            Cs::C422 => (1, 0),
            Cs::C444 => (0, 0),
        }
    }
    pub fn weight(self) -> f64 {
        match self {
            Cs::C400 => 0.0,
            Cs::C420 => 0.25,
            Cs::C422 => 0.5,
            Cs::C444 => 1.0,
        }
    }
    pub fn chroma_dims(self, w: usize, h: usize) -> (usize, usize) {
        if self == Cs::C400 {
            return (0, 0);
        }
        let (x, y) = self.dec();
        ((w + x) >> x, (h + y) >> y)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Geo {
    pub w: usize,
    pub h: usize,
    pub cs: Cs,
    pub depth: usize,
}

impl Geo {
    pub fn dims(&self, p: usize) -> (usize, usize) {
        if p == 0 {
            (self.w, self.h)
        } else {
            self.cs.chroma_dims(self.w, self.h)
        }
    }
    pub fn max(&self) -> u32 {
        (1u32 << self.depth) - 1
    }
}

/// One plane's contents.  Values are fractions of the sample range (0..=65535).
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pat {
    Flat(u16),
    Ramp { base: u16, dx: i16, dy: i16 },
    Checker { a: u16, b: u16, p: u8 },
    Noise { seed: u32, lo: u16, hi: u16 },
    Extreme { seed: u32 },
    Smooth { seed: u32, amp: u16 },
    Stripes { seed: u32, vertical: bool },
}

pub fn hash2(seed: u32, a: u32, b: u32) -> u32 {
    let mut z = (seed as u64) << 32 | (a.wrapping_mul(0x9E37_79B1) ^ b.wrapping_mul(0x85EB_CA77)) as u64;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = z.wrapping_add((a as u64) << 20 | b as u64);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    (z ^ (z >> 31)) as u32
}

fn scale(f: u32, max: u32) -> u32 {
    ((f as u64 * max as u64 + 32767) / 65535) as u32
}

impl Pat {
    pub fn at(&self, x: usize, y: usize, max: u32) -> u32 {
        let (xi, yi) = (x as u32, y as u32);
        match *self {
            Pat::Flat(v) => scale(v as u32, max),
            Pat::Ramp { base, dx, dy } => {
                let v = base as i64 + x as i64 * dx as i64 + y as i64 * dy as i64;
                // reflect into the range
                let m = v.rem_euclid(131070);
                scale(if m > 65535 { 131070 - m } else { m } as u32, max)
            }
            Pat::Checker { a, b, p } => {
                let p = p.max(1) as usize;
                scale(if (x / p + y / p) % 2 == 0 { a } else { b } as u32, max)
            }
            Pat::Noise { seed, lo, hi } => {
                let (l, h) = (scale(lo.min(hi) as u32, max), scale(lo.max(hi) as u32, max));
                l + hash2(seed, xi, yi) % (h - l + 1)
            }
            Pat::Extreme { seed } => {
                if hash2(seed, xi, yi) & 1 == 0 {
                    0
                } else {
                    max
                }
            }
            Pat::Smooth { seed, amp } => {
                let f = |k: u32| (hash2(seed, k, 77) % 1000) as f64 / 1000.0;
                let v = 0.5
                    + 0.5 * (amp as f64 / 65535.0)
                        * ((x as f64 * (0.05 + 0.6 * f(1)) + 6.0 * f(2)).sin()
                            * (y as f64 * (0.05 + 0.6 * f(3)) + 6.0 * f(4)).cos());
                (v * max as f64).round().clamp(0.0, max as f64) as u32
            }
            Pat::Stripes { seed, vertical } => {
                let k = if vertical { xi } else { yi };
                hash2(seed, k, 5) % (max + 1)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Edit {
    pub plane: u8,
    pub x: u16,
    pub y: u16,
    pub v: u16,
}

/// How the second picture comes from the first.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Diff {
    Same,
    Edits(Vec<Edit>),
    /// Adds noise of +-amp (a fraction of the range) to a share of the samples.
    Noise { seed: u32, amp: u16, density: u8, planes: u8 },
    Bias { d: i16, planes: u8 },
    Fresh([Pat; 3]),
    Invert { planes: u8 },
    ShiftX { by: u8, planes: u8 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pair {
    pub geo: Geo,
    pub a: [Pat; 3],
    pub edits: Vec<Edit>,
    pub diff: Diff,
    pub layout: Layout,
}

/// How the samples are laid out in memory.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Layout {
    pub xpad: u8,
    pub ypad: u8,
    /// The plane is a window into a larger allocation: unused samples to the
    /// left/top and right/bottom.
    pub left: u8,
    pub top: u8,
    pub right: u8,
    pub bottom: u8,
    /// Seed of the values in the padding.
    pub fill: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RawPlane {
    pub w: usize,
    pub h: usize,
    pub d: Vec<u16>,
}

impl RawPlane {
    pub fn at(&self, x: usize, y: usize) -> u32 {
        self.d[y * self.w + x] as u32
    }
    pub fn is_empty(&self) -> bool {
        self.d.is_empty()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub geo: Geo,
    pub planes: [RawPlane; 3],
}

impl Raw {
    pub fn render(geo: Geo, pats: &[Pat; 3], edits: &[Edit]) -> Raw {
        let max = geo.max();
        let plane = |p: usize| {
            let (w, h) = geo.dims(p);
            let mut d = Vec::with_capacity(w * h);
            for y in 0..h {
                for x in 0..w {
                    d.push(pats[p].at(x, y, max) as u16);
                }
            }
            RawPlane { w, h, d }
        };
        let mut r = Raw {
            geo,
            planes: [plane(0), plane(1), plane(2)],
        };
        r.apply(edits);
        r
    }

    pub fn apply(&mut self, edits: &[Edit]) {
        let max = self.geo.max();
        for e in edits {
            let p = &mut self.planes[e.plane as usize % 3];
            if p.is_empty() {
                continue;
            }
            let (x, y) = (e.x as usize % p.w, e.y as usize % p.h);
            p.d[y * p.w + x] = scale(e.v as u32, max) as u16;
        }
    }

    pub fn map_planes(&self, planes: u8, f: impl Fn(usize, usize, usize, u32) -> u32) -> Raw {
        let mut r = self.clone();
        let max = self.geo.max();
        for p in 0..3 {
            if planes & (1 << p) == 0 {
                continue;
            }
            let w = r.planes[p].w;
            for (i, v) in r.planes[p].d.iter_mut().enumerate() {
                *v = f(p, i % w, i / w, *v as u32).min(max) as u16;
            }
        }
        r
    }

    pub fn derive(&self, diff: &Diff) -> Raw {
        let max = self.geo.max();
        match diff {
            Diff::Same => self.clone(),
            Diff::Edits(e) => {
                let mut r = self.clone();
                r.apply(e);
                r
            }
            Diff::Noise { seed, amp, density, planes } => {
                let a = scale(*amp as u32, max).max(1);
                self.map_planes(*planes, |p, x, y, v| {
                    let h = hash2(*seed ^ (p as u32 + 1), x as u32, y as u32);
                    if (h & 0xff) as u8 > *density {
                        return v;
                    }
                    let d = (h >> 8) % (2 * a + 1);
                    (v + d).saturating_sub(a).min(max)
                })
            }
            Diff::Bias { d, planes } => {
                let m = scale(d.unsigned_abs() as u32, max).max(1);
                self.map_planes(*planes, |_, _, _, v| {
                    if *d < 0 {
                        v.saturating_sub(m)
                    } else {
                        (v + m).min(max)
                    }
                })
            }
            Diff::Fresh(p) => Raw::render(self.geo, p, &[]),
            Diff::Invert { planes } => self.map_planes(*planes, |_, _, _, v| max - v),
            Diff::ShiftX { by, planes } => self.map_planes(*planes, |p, x, y, _| {
                let pl = &self.planes[p];
                pl.at((x + *by as usize) % pl.w, y)
            }),
        }
    }

    pub fn plane<T: Pixel>(&self, p: usize, l: &Layout) -> Plane<T> {
        let src = &self.planes[p];
        let (xdec, ydec) = if p == 0 { (0, 0) } else { self.geo.cs.dec() };
        if src.is_empty() {
            return Plane::new(0, 0, xdec, ydec, 0, 0);
        }
        let (xp, yp) = if p == 0 {
            (l.xpad as usize, l.ypad as usize)
        } else {
            (l.xpad as usize >> xdec, l.ypad as usize >> ydec)
        };
        // Sometimes the second chroma plane differs from the first.
        let more = if p == 2 && l.fill % 5 == 1 { 1 + l.fill as usize % 97 } else { 0 };
        let mut pl: Plane<T> = Plane::new(
            src.w + (l.left as usize) + l.right as usize + more,
            src.h + (l.top as usize) + l.bottom as usize,
            xdec,
            ydec,
            xp,
            yp,
        );
        pl.cfg.xorigin += l.left as usize;
        pl.cfg.yorigin += l.top as usize;
        pl.cfg.width = src.w;
        pl.cfg.height = src.h;
        let max = self.geo.max();
        if l.fill != 0 {
            for (i, v) in pl.data.iter_mut().enumerate() {
                let h = hash2(l.fill, i as u32, p as u32);
                // Mix noise with extreme values.
                let s = match h >> 30 {
                    0 => 0,
                    1 => max,
                    _ => (h & 0xffff) % (max + 1),
                };
                *v = T::cast_from(s);
            }
        }
        let (xo, yo, st) = (pl.cfg.xorigin, pl.cfg.yorigin, pl.cfg.stride);
        for y in 0..src.h {
            for x in 0..src.w {
                pl.data[(yo + y) * st + xo + x] = T::cast_from(src.at(x, y));
            }
        }
        pl
    }

    pub fn frame<T: Pixel>(&self, l: &Layout) -> Frame<T> {
        Frame {
            planes: [self.plane(0, l), self.plane(1, l), self.plane(2, l)],
        }
    }

    /// Reads the visible samples of a frame back.
    pub fn from_frame<T: Pixel>(geo: Geo, f: &Frame<T>) -> Raw {
        let pl = |p: usize| {
            let c = &f.planes[p].cfg;
            let mut d = Vec::with_capacity(c.width * c.height);
            for y in 0..c.height {
                for x in 0..c.width {
                    d.push(u16::cast_from(
                        f.planes[p].data[(c.yorigin + y) * c.stride + c.xorigin + x],
                    ));
                }
            }
            RawPlane {
                w: c.width,
                h: c.height,
                d,
            }
        };
        Raw {
            geo,
            planes: [pl(0), pl(1), pl(2)],
        }
    }

    /// The first differing sample, for messages.
    pub fn first_diff(&self, o: &Raw) -> Option<String> {
        for p in 0..3 {
            let (a, b) = (&self.planes[p], &o.planes[p]);
            if (a.w, a.h) != (b.w, b.h) {
                return Some(format!(
                    "plane {p} is {}x{} instead of {}x{}",
                    b.w, b.h, a.w, a.h
                ));
            }
            if let Some(i) = (0..a.d.len()).find(|&i| a.d[i] != b.d[i]) {
                return Some(format!(
                    "plane {p} ({},{}) is {} instead of {}",
                    i % a.w,
                    i / a.w,
                    b.d[i],
                    a.d[i]
                ));
            }
        }
        None
    }
}

impl Pair {
    pub fn raws(&self) -> (Raw, Raw) {
        let a = Raw::render(self.geo, &self.a, &self.edits);
        let b = a.derive(&self.diff);
        (a, b)
    }
}

// ---------------------------------------------------------------- strategies

pub fn pat() -> BoxedStrategy<Pat> {
    prop_oneof![
        3 => any::<u16>().prop_map(Pat::Flat),
        1 => prop_oneof![Just(0u16), Just(65535)].prop_map(Pat::Flat),
        2 => (any::<u16>(), -3000i16..3000, -3000i16..3000)
            .prop_map(|(base, dx, dy)| Pat::Ramp { base, dx, dy }),
        1 => (any::<u16>(), any::<u16>(), 1u8..9).prop_map(|(a, b, p)| Pat::Checker { a, b, p }),
        4 => (any::<u32>(), any::<u16>(), any::<u16>())
            .prop_map(|(seed, lo, hi)| Pat::Noise { seed, lo, hi }),
        2 => any::<u32>().prop_map(|seed| Pat::Noise { seed, lo: 0, hi: 65535 }),
        1 => any::<u32>().prop_map(|seed| Pat::Extreme { seed }),
        3 => (any::<u32>(), any::<u16>()).prop_map(|(seed, amp)| Pat::Smooth { seed, amp }),
        1 => (any::<u32>(), any::<bool>()).prop_map(|(seed, vertical)| Pat::Stripes { seed, vertical }),
    ]
    .boxed()
}

pub fn pats() -> BoxedStrategy<[Pat; 3]> {
    [pat(), pat(), pat()].boxed()
}

pub fn edit() -> BoxedStrategy<Edit> {
    // Bias towards corners and borders: 65535 wraps to somewhere, 0 is first.
    (0u8..3, coord(), coord(), any::<u16>())
        .prop_map(|(plane, x, y, v)| Edit { plane, x, y, v })
        .boxed()
}

fn coord() -> BoxedStrategy<u16> {
    prop_oneof![2 => 0u16..4, 3 => any::<u16>()].boxed()
}

pub fn edits(n: usize) -> BoxedStrategy<Vec<Edit>> {
    prop::collection::vec(edit(), 0..=n).boxed()
}

pub fn planes_mask() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(7u8), 3 => 1u8..8].boxed()
}

pub fn diff() -> BoxedStrategy<Diff> {
    prop_oneof![
        1 => Just(Diff::Same),
        4 => prop::collection::vec(edit(), 1..6).prop_map(Diff::Edits),
        5 => (any::<u32>(), amp(), any::<u8>(), planes_mask())
            .prop_map(|(seed, amp, density, planes)| Diff::Noise { seed, amp, density, planes }),
        2 => (any::<i16>(), planes_mask()).prop_map(|(d, planes)| Diff::Bias { d, planes }),
        3 => pats().prop_map(Diff::Fresh),
        1 => planes_mask().prop_map(|planes| Diff::Invert { planes }),
        1 => (1u8..9, planes_mask()).prop_map(|(by, planes)| Diff::ShiftX { by, planes }),
    ]
    .boxed()
}

fn amp() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0u16..700, 3 => 0u16..6000, 2 => any::<u16>()].boxed()
}

/// Sides of a picture: small ones, ones around the alignments of the library
/// (8, 32, 64) and a few large ones.
pub fn side(min: usize, max: usize) -> BoxedStrategy<usize> {
    let small = (min + 24).min(max);
    prop_oneof![
        4 => min..=small,
        3 => min..=max,
        2 => prop::sample::select(
            [8usize, 16, 24, 32, 40, 48, 56, 64, 96, 128, 192, 256]
                .iter()
                .flat_map(|&v| [v - 1, v, v + 1])
                .filter(|v| (min..=max).contains(v))
                .chain([min])
                .collect::<Vec<_>>()
        ),
    ]
    .boxed()
}

pub fn cs(mono: bool) -> BoxedStrategy<Cs> {
    if mono {
        prop_oneof![5 => Just(Cs::C420), 3 => Just(Cs::C444), 3 => Just(Cs::C422), 1 => Just(Cs::C400)].boxed()
    } else {
        prop_oneof![5 => Just(Cs::C420), 3 => Just(Cs::C444), 3 => Just(Cs::C422)].boxed()
    }
}

pub fn depth_any() -> BoxedStrategy<usize> {
    prop_oneof![5 => Just(8usize), 3 => Just(10), 2 => Just(12), 2 => 9usize..=16, 1 => Just(16)].boxed()
}

pub fn depth_video() -> BoxedStrategy<usize> {
    prop_oneof![5 => Just(8usize), 3 => Just(10), 2 => Just(12)].boxed()
}

pub fn layout() -> BoxedStrategy<Layout> {
    let some = (
        0u8..20,
        0u8..20,
        0u8..10,
        0u8..10,
        prop_oneof![0u8..10, 0u8..=130],
        0u8..10,
        1u32..u32::MAX,
    )
        .prop_map(|(xpad, ypad, left, top, right, bottom, fill)| Layout {
            xpad,
            ypad,
            left,
            top,
            right,
            bottom,
            fill,
        });
    prop_oneof![
        2 => (0u32..u32::MAX).prop_map(|fill| Layout { fill, ..Layout::default() }),
        1 => (0u8..40, 1u32..u32::MAX).prop_map(|(p, fill)| Layout { xpad: p, ypad: p, fill, ..Layout::default() }),
        2 => some,
    ]
    .boxed()
}

/// A geometry with sides in the given ranges; for subsampled formats chroma
/// planes have at least `min_chroma` samples on each side.
pub fn geo(
    sides: (usize, usize),
    min_chroma: usize,
    mono: bool,
    depth: BoxedStrategy<usize>,
) -> BoxedStrategy<Geo> {
    (side(sides.0, sides.1), side(sides.0, sides.1), cs(mono), depth)
        .prop_map(move |(w, h, cs, depth)| {
            let (x, y) = cs.dec();
            Geo {
                w: w.max(min_chroma << x),
                h: h.max(min_chroma << y),
                cs,
                depth,
            }
        })
        .boxed()
}

/// Lines and columns of picture sizes that occur and of powers of two: one side
/// is long, the other one short.
pub fn geo_long(max: usize, min_chroma: usize, depth: BoxedStrategy<usize>) -> BoxedStrategy<Geo> {
    let long = prop_oneof![
        3 => 300..=max,
        2 => prop::sample::select(
            [480usize, 512, 720, 1024, 1080, 1280, 1920, 2048, 2160, 3840, 4096, 4320, 7680, 8192]
                .iter()
                .flat_map(|&v| [v - 1, v, v + 1])
                .filter(|v| *v <= max)
                .collect::<Vec<_>>()
        ),
    ];
    (long, prop_oneof![2 => 1usize..12, 1 => 12usize..40], any::<bool>(), cs(true), depth)
        .prop_map(move |(long, short, wide, cs, depth)| {
            let (x, y) = cs.dec();
            let (w, h) = if wide { (long, short) } else { (short, long) };
            Geo {
                w: w.max(min_chroma << x),
                h: h.max(min_chroma << y),
                cs,
                depth,
            }
        })
        .boxed()
}

/// Sides beyond 2^16 and below, with few samples across.
pub fn geo_far(min_chroma: usize, wide: Option<bool>, depth: BoxedStrategy<usize>) -> BoxedStrategy<Geo> {
    let long = prop_oneof![
        1 => 8_300usize..70_000,
        3 => prop::sample::select(vec![16_384usize, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 65_600, 131_073]),
    ];
    (long, 1usize..4, any::<bool>(), cs(true), depth)
        .prop_map(move |(long, short, w, cs, depth)| {
            let (x, y) = cs.dec();
            let (w, h) = if wide.unwrap_or(w) { (long, short) } else { (short, long) };
            Geo {
                w: w.max(min_chroma << x),
                h: h.max(min_chroma << y),
                cs,
                depth,
            }
        })
        .boxed()
}

/// Sizes of films: both sides are large.
pub fn geo_full(max: usize, depth: BoxedStrategy<usize>) -> BoxedStrategy<Geo> {
    let sizes = prop::sample::select(
        [(720usize, 480usize), (1280, 720), (1366, 768), (1920, 1080), (1918, 1079), (2048, 858), (3840, 2160), (4095, 2161)]
            .into_iter()
            .filter(|s| s.0 <= max)
            .collect::<Vec<_>>(),
    );
    (sizes, any::<bool>(), cs(true), depth)
        .prop_map(|((w, h), turn, cs, depth)| {
            let (w, h) = if turn { (h, w) } else { (w, h) };
            Geo { w, h, cs, depth }
        })
        .boxed()
}

pub fn pair_of(geo: BoxedStrategy<Geo>) -> BoxedStrategy<Pair> {
    (geo, pats(), edits(3), diff(), layout())
        .prop_map(|(geo, a, edits, diff, layout)| Pair {
            geo,
            a,
            edits,
            diff,
            layout,
        })
        .boxed()
}

/// Runs `$body` with `$T` bound to the sample type for the depth.
#[macro_export]
macro_rules! with_pixel {
    ($depth:expr, $T:ident => $body:expr) => {
        if $depth > 8 {
            type $T = u16;
            $body
        } else {
            type $T = u8;
            $body
        }
    };
}

//! An own writer and an own strict reader of Y4M streams.

use crate::pic::*;
use av_metrics::video::decode::{Rational, VideoDetails};
use av_metrics::video::ChromaSamplePosition as Pos;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Space {
    Default,
    Mono,
    Mono12,
    C420,
    C420p10,
    C420p12,
    C420jpeg,
    C420paldv,
    C420mpeg2,
    C422,
    C422p10,
    C422p12,
    C444,
    C444p10,
    C444p12,
}

pub const SPACES: [Space; 15] = [
    Space::Default,
    Space::Mono,
    Space::Mono12,
    Space::C420,
    Space::C420p10,
    Space::C420p12,
    Space::C420jpeg,
    Space::C420paldv,
    Space::C420mpeg2,
    Space::C422,
    Space::C422p10,
    Space::C422p12,
    Space::C444,
    Space::C444p10,
    Space::C444p12,
];

impl Space {
    pub fn name(self) -> &'static str {
        match self {
            Space::Default => "",
            Space::Mono => "mono",
            Space::Mono12 => "mono12",
            Space::C420 => "420",
            Space::C420p10 => "420p10",
            Space::C420p12 => "420p12",
            Space::C420jpeg => "420jpeg",
            Space::C420paldv => "420paldv",
            Space::C420mpeg2 => "420mpeg2",
            Space::C422 => "422",
            Space::C422p10 => "422p10",
            Space::C422p12 => "422p12",
            Space::C444 => "444",
            Space::C444p10 => "444p10",
            Space::C444p12 => "444p12",
        }
    }
    pub fn cs(self) -> Cs {
        match self {
            Space::Mono | Space::Mono12 => Cs::C400,
            Space::C422 | Space::C422p10 | Space::C422p12 => Cs::C422,
            Space::C444 | Space::C444p10 | Space::C444p12 => Cs::C444,
            _ => Cs::C420,
        }
    }
    pub fn depth(self) -> usize {
        match self.name() {
            n if n.ends_with("p10") => 10,
            n if n.ends_with("p12") || n == "mono12" => 12,
            _ => 8,
        }
    }
    pub fn pos(self) -> Pos {
        match self {
            Space::Mono | Space::Mono12 => Pos::Unknown,
            Space::C420jpeg => Pos::Bilateral,
            Space::C420paldv => Pos::Interpolated,
            Space::C420mpeg2 | Space::C422 | Space::C422p10 | Space::C422p12 => Pos::Vertical,
            _ => Pos::Colocated,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Header {
    pub w: usize,
    pub h: usize,
    pub space: Space,
    pub rate: Option<(u32, u32)>,
    /// Further parameters, e.g. "Ip", "A1:1", "XCOMMENT".
    pub extra: Vec<String>,
    /// Rotates the order of the parameters.
    pub order: u8,
}

impl Header {
    pub fn geo(&self) -> Geo {
        Geo {
            w: self.w,
            h: self.h,
            cs: self.space.cs(),
            depth: self.space.depth(),
        }
    }
    pub fn bytes(&self) -> usize {
        1 + usize::from(self.space.depth() > 8)
    }
    pub fn text(&self) -> Vec<u8> {
        let mut p = vec![format!("W{}", self.w), format!("H{}", self.h)];
        if let Some((n, d)) = self.rate {
            p.push(format!("F{n}:{d}"));
        }
        if self.space != Space::Default {
            p.push(format!("C{}", self.space.name()));
        }
        p.extend(self.extra.iter().cloned());
        let k = self.order as usize % p.len();
        p.rotate_left(k);
        format!("YUV4MPEG2 {}\n", p.join(" ")).into_bytes()
    }
    /// What is wrong with the details, if anything.
    pub fn details_wrong(&self, d: &VideoDetails) -> Option<String> {
        let g = self.geo();
        let (n, m) = self.rate.unwrap_or((25, 1));
        let want = format!(
            "{}x{} {} bits {:?} {:?} time base {}/{}",
            g.w,
            g.h,
            g.depth,
            g.cs.lib(),
            self.space.pos(),
            m,
            n
        );
        let got = format!(
            "{}x{} {} bits {:?} {:?} time base {}/{}",
            d.width,
            d.height,
            d.bit_depth,
            d.chroma_sampling,
            d.chroma_sample_position,
            d.time_base.num,
            d.time_base.den
        );
        let (r, v) = (Rational::from_reciprocal(d.time_base), d.time_base.as_f64());
        if (r.num, r.den) != (d.time_base.den, d.time_base.num) || m > 0 && n > 0 && !(v * n as f64 / m as f64 - 1.0).abs().le(&1e-12) {
            return Some(format!("time base {m}/{n} has the value {v} and the reciprocal {}/{}", r.num, r.den));
        }
        (want != got).then(|| format!("details are '{got}', the header says '{want}'"))
    }
}

pub fn put_samples(out: &mut Vec<u8>, r: &Raw, bytes: usize) {
    for p in &r.planes {
        for v in &p.d {
            if bytes == 1 {
                out.push(*v as u8);
            } else {
                out.extend_from_slice(&v.to_le_bytes());
            }
        }
    }
}

/// A clip: header, parameters of the frame headers and contents.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Video {
    pub header: Header,
    pub frames: Vec<([Pat; 3], Option<String>)>,
    /// Two-byte samples use all 16 bits, not just the depth of the format.
    pub beyond: bool,
}

impl Video {
    pub fn raws(&self) -> Vec<Raw> {
        let g = self.header.geo();
        let content = Geo {
            depth: if g.depth > 8 && self.beyond { 16 } else { g.depth },
            ..g
        };
        self.frames
            .iter()
            .map(|f| {
                let mut r = Raw::render(content, &f.0, &[]);
                r.geo = g;
                r
            })
            .collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = self.header.text();
        for (f, r) in self.frames.iter().zip(self.raws()) {
            out.extend_from_slice(b"FRAME");
            if let Some(p) = &f.1 {
                out.push(b' ');
                out.extend_from_slice(p.as_bytes());
            }
            out.push(b'\n');
            put_samples(&mut out, &r, self.header.bytes());
        }
        out
    }
}

/// The six-tap filter, written from its definition.
pub fn realign(row: &[u32], depth: usize) -> Vec<u32> {
    let n = row.len() as i64;
    let at = |i: i64| row[i.clamp(0, n - 1) as usize] as i64;
    (0..n)
        .map(|x| {
            let taps = [4, -17, 114, 35, -9, 1];
            let s: i64 = (0..6).map(|k| taps[k as usize] * at(x - 2 + k)).sum();
            (s + 64).div_euclid(128).clamp(0, (1i64 << depth) - 1) as u32
        })
        .collect()
}

/// What the decoder has to return for a frame with these stored samples.
pub fn decoded(r: &Raw, pos: Pos) -> Raw {
    let mut o = r.clone();
    if pos == Pos::Vertical {
        for p in &mut o.planes[1..] {
            for y in 0..p.h {
                let row: Vec<u32> = (0..p.w).map(|x| p.at(x, y)).collect();
                for (x, v) in realign(&row, r.geo.depth).into_iter().enumerate() {
                    p.d[y * p.w + x] = v as u16;
                }
            }
        }
    }
    o
}

/// The frames that a strict reader finds behind the header: all complete
/// well-formed ones up to the first damage.
pub fn strict_frames(h: &Header, body: &[u8]) -> Vec<Raw> {
    let g = h.geo();
    let bytes = h.bytes();
    let n: usize = (0..3).map(|p| g.dims(p).0 * g.dims(p).1 * bytes).sum();
    let mut out = vec![];
    let mut i = 0;
    while i < body.len() {
        let Some(eol) = body[i..].iter().position(|b| *b == b'\n') else { break };
        let line = &body[i..i + eol];
        let ok = line == b"FRAME" || line.starts_with(b"FRAME ");
        if !ok || eol >= 1024 {
            break;
        }
        i += eol + 1;
        if body.len() - i < n {
            break;
        }
        let mut at = i;
        let mut plane = |p: usize| {
            let (w, hh) = g.dims(p);
            let mut d = Vec::with_capacity(w * hh);
            for _ in 0..w * hh {
                d.push(if bytes == 1 {
                    body[at] as u16
                } else {
                    body[at] as u16 | (body[at + 1] as u16) << 8
                });
                at += bytes;
            }
            RawPlane { w, h: hh, d }
        };
        out.push(Raw {
            geo: g,
            planes: [plane(0), plane(1), plane(2)],
        });
        i += n;
    }
    out
}

// ------------------------------------------------------------ scratch files

static FILES: AtomicUsize = AtomicUsize::new(0);

pub fn scratch_root() -> PathBuf {
    crate::run::scratch_root()
}

/// A file or directory name that is removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(ext: &str) -> Scratch {
        let n = FILES.fetch_add(1, Ordering::SeqCst);
        let root = scratch_root();
        std::fs::create_dir_all(&root).expect("scratch directory");
        Scratch(root.join(format!("f{n}{ext}")))
    }
    pub fn with(ext: &str, data: &[u8]) -> Scratch {
        let s = Scratch::new(ext);
        std::fs::write(&s.0, data).expect("scratch file");
        s
    }
    pub fn dir() -> Scratch {
        let s = Scratch::new("");
        std::fs::create_dir_all(&s.0).expect("scratch directory");
        s
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.is_dir() {
            let _ = std::fs::remove_dir_all(&self.0);
        } else {
            let _ = std::fs::remove_file(&self.0);
        }
    }
}

// --------------------------------------------------------------- strategies

pub fn space() -> BoxedStrategy<Space> {
    prop::sample::select(SPACES.to_vec()).boxed()
}

pub fn header(space: BoxedStrategy<Space>, sides: (usize, usize)) -> BoxedStrategy<Header> {
    let rate = prop_oneof![
        1 => Just(None),
        3 => (1u32..130, prop_oneof![2 => Just(1u32), 1 => 1u32..20]).prop_map(Some),
        2 => prop::sample::select(vec![(30000u32, 1001u32), (24000, 1001), (60, 1), (25, 1)]).prop_map(Some),
        1 => (1u32..u32::MAX, 1u32..u32::MAX).prop_map(Some),
    ];
    let extra = prop::collection::vec(
        prop::sample::select(vec![
            "Ip".to_string(),
            "It".into(),
            "I?".into(),
            "A1:1".into(),
            "A0:0".into(),
            "A128:117".into(),
            "XYSCSS=420JPEG".into(),
            "XCOLORRANGE=LIMITED".into(),
            "Xcomment".into(),
            "".into(),
        ]),
        0..4,
    );
    (space, side(sides.0, sides.1), side(sides.0, sides.1), rate, extra, any::<u8>())
        .prop_map(|(space, w, h, rate, extra, order)| Header { w, h, space, rate, extra, order })
        .boxed()
}

pub fn video(
    space: BoxedStrategy<Space>,
    sides: (usize, usize),
    max_frames: usize,
) -> BoxedStrategy<Video> {
    let param = prop_oneof![
        5 => Just(None),
        1 => prop::sample::select(vec!["", "Ip", "It1p", "XFRAME", "X y=z Ib"])
            .prop_map(|s| Some(s.to_string())),
        1 => (0usize..900).prop_map(|n| Some("X".repeat(n))),
    ];
    (
        header(space, sides),
        prop::collection::vec((pats(), param), 0..=max_frames),
        any::<bool>(),
    )
        .prop_map(|(header, frames, beyond)| Video { header, frames, beyond })
        .boxed()
}

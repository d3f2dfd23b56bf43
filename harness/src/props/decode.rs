//! C15..C18: the Y4M decoder, chroma realignment and seeking.

use super::video::{any_coded, encode, ff_pos, ff_video, open_ff, Coded};
use crate::mock::Mock;
use crate::pic::*;
use crate::run::*;
use crate::y4m::*;
use av_metrics::video::decode::{convert_chroma_data, Decoder};
use av_metrics::video::{ChromaSamplePosition as Pos, Pixel};
use av_metrics_decoders::y4m::new_decoder_from_file;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub(super) fn open(path: &std::path::Path) -> Result<impl Decoder, String> {
    guarded(|| new_decoder_from_file(path))
        .map_err(|e| format!("opening the file: {e}"))?
        .map_err(|e| format!("the file cannot be opened: {e}"))
}

/// Reads up to `max` frames; fails if a frame has a wrong shape.
pub(super) fn read_all<D: Decoder>(d: &mut D, geo: Geo, wide: bool, max: usize) -> Result<Vec<Raw>, String> {
    fn go<T: Pixel, D: Decoder>(d: &mut D, geo: Geo, max: usize) -> Result<Vec<Raw>, String> {
        let mut out = vec![];
        while let Some(f) = guarded(|| d.read_video_frame::<T>()).map_err(|e| format!("frame {}: {e}", out.len()))? {
            out.push(Raw::from_frame(geo, &f));
            if out.len() > max {
                return Err(format!("more than {max} frames"));
            }
        }
        Ok(out)
    }
    if wide {
        go::<u16, D>(d, geo, max)
    } else {
        go::<u8, D>(d, geo, max)
    }
}

pub(super) fn compare(got: &[Raw], want: &[Raw]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if let Some(d) = w.first_diff(g) {
            return Err(format!("frame {i}: {d}"));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} frames instead of {}", got.len(), want.len()));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Y4m {
    video: Video,
    /// Read 8-bit video as 16-bit samples.
    wide: bool,
}

fn y4m_info(v: &Video) -> Info {
    let g = v.header.geo();
    Info::new(!v.frames.is_empty() && (g.w % 8 != 0 || g.h % 8 != 0))
        .tag_if(g.cs == Cs::C400, "mono")
        .tag_if(g.depth > 8, "two-byte samples")
        .tag_if(v.header.space.pos() == Pos::Vertical, "realigned")
        .tag_if(v.frames.len() > 1, "several frames")
        .tag_if(g.w == 1 || g.h == 1, "side of one")
}

fn check_y4m(c: &Y4m) -> CaseResult {
    let v = &c.video;
    let file = Scratch::with(".y4m", &v.bytes());
    let mut d = open(&file.0)?;
    let details = guarded(|| d.get_video_details()).map_err(|e| format!("details: {e}"))?;
    if let Some(e) = v.header.details_wrong(&details) {
        return Err(e);
    }
    if d.get_bit_depth() != v.header.space.depth() {
        return Err(format!("bit depth {}", d.get_bit_depth()));
    }
    let wide = c.wide || v.header.space.depth() > 8;
    let got = read_all(&mut d, v.header.geo(), wide, v.frames.len() + 1)?;
    let want: Vec<Raw> = v.raws().iter().map(|r| decoded(r, v.header.space.pos())).collect();
    compare(&got, &want)?;
    for _ in 0..3 {
        if !read_all(&mut d, v.header.geo(), wide, 0)?.is_empty() {
            return Err("a frame after the end".into());
        }
    }
    Ok(y4m_info(v))
}

fn y4m(space: fn() -> BoxedStrategy<Space>, sides: (usize, usize), frames: usize) -> BoxedStrategy<Y4m> {
    (video(space(), sides, frames), any::<bool>())
        .prop_map(|(video, wide)| Y4m { video, wide })
        .boxed()
}

/// The part of the harness that runs as its own process: decodes standard
/// input and writes what it got.
pub fn dump_stdin(wide: bool) {
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut d = match av_metrics_decoders::y4m::new_decoder_from_stdin() {
        Ok(d) => d,
        Err(_) => {
            let _ = out.write_all(&[2]);
            return;
        }
    };
    fn dump<T: Pixel, D: Decoder>(d: &mut D, out: &mut impl Write) {
        let v = d.get_video_details();
        let head = format!(
            "{}x{} {} {:?} {:?} {}/{}\n",
            v.width, v.height, v.bit_depth, v.chroma_sampling, v.chroma_sample_position, v.time_base.num, v.time_base.den
        );
        out.write_all(head.as_bytes()).unwrap();
        while let Some(f) = d.read_video_frame::<T>() {
            out.write_all(&[1]).unwrap();
            let g = Geo { w: 1, h: 1, cs: Cs::C444, depth: 16 };
            let r = Raw::from_frame(g, &f);
            for p in &r.planes {
                for s in &p.d {
                    out.write_all(&s.to_le_bytes()).unwrap();
                }
            }
        }
    }
    if wide {
        dump::<u16, _>(&mut d, &mut out);
    } else {
        dump::<u8, _>(&mut d, &mut out);
    }
    out.write_all(&[0]).unwrap();
}

fn check_stdin(c: &Y4m) -> CaseResult {
    let v = &c.video;
    let wide = c.wide || v.header.space.depth() > 8;
    let mut child = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["dump-stdin", if wide { "wide" } else { "narrow" }])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("own process");
    let mut stdin = child.stdin.take().unwrap();
    let bytes = v.bytes();
    let feeder = std::thread::spawn(move || {
        // In pieces, so that reads come back short.
        for (i, c) in bytes.chunks(1 + bytes.len() / 3).enumerate() {
            if i > 0 {
                std::thread::yield_now();
            }
            if stdin.write_all(c).is_err() {
                break;
            }
        }
    });
    let mut got = vec![];
    child.stdout.take().unwrap().read_to_end(&mut got).expect("output of the own process");
    feeder.join().expect("feeder");
    let status = child.wait().expect("own process");
    let (n, m) = v.header.rate.unwrap_or((25, 1));
    let g = v.header.geo();
    let mut want = format!(
        "{}x{} {} {:?} {:?} {}/{}\n",
        g.w, g.h, g.depth, g.cs.lib(), v.header.space.pos(), m, n
    )
    .into_bytes();
    for r in v.raws() {
        want.push(1);
        put_samples(&mut want, &decoded(&r, v.header.space.pos()), 2);
    }
    want.push(0);
    if got != want {
        return Err(format!(
            "standard input: decoded {} bytes ({status}) instead of {}, first difference at {:?}",
            got.len(),
            want.len(),
            got.iter().zip(&want).position(|(a, b)| a != b)
        ));
    }
    Ok(y4m_info(v))
}

const Y4M_RULE: &str = "a generated Y4M stream (15 ways to give the colour space, sizes, frame \
rates, extra parameters in any order, frame parameters, full-range contents, 8-bit video also read \
into 16-bit samples) against the stored samples; non-trivial if there is a frame and a side is not \
a multiple of 8";

const FAR_Y4M: &str = "the same with one side of up to 131073 samples, or the size of a film";

/// One or two frames of unusually large sizes.
fn far(space: fn() -> BoxedStrategy<Space>, max: Option<usize>) -> BoxedStrategy<Y4m> {
    (y4m(space, (1, 2), 1), large_sides(max), pats())
        .prop_map(|(mut c, (w, h), p)| {
            (c.video.header.w, c.video.header.h) = (w, h);
            c.video.frames.push((p, None));
            c
        })
        .boxed()
}

pub(super) fn large_sides(max: Option<usize>) -> BoxedStrategy<(usize, usize)> {
    let max = max.unwrap_or(usize::MAX);
    prop_oneof![
        4 => geo_far(1, None, Just(8).boxed()),
        1 => geo_full(2_100, Just(8).boxed()),
        3 => geo_long(8_200, 1, Just(8).boxed()),
    ]
    .prop_map(move |g| (g.w.min(max), g.h.min(max)))
    .boxed()
}

/// Around 2^16 frames, where counters of frames end.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Many<C> {
    pub of: C,
    seed: u32,
    n: usize,
}

impl<C> Many<C> {
    pub fn video(&self, v: &Video) -> Video {
        Video { frames: many_frames(self.seed, self.n), ..v.clone() }
    }
}

pub(super) fn many<C: std::fmt::Debug + 'static>(c: BoxedStrategy<C>) -> BoxedStrategy<Many<C>> {
    (c, any::<u32>(), 65_530usize..65_600).prop_map(|(of, seed, n)| Many { of, seed, n }).boxed()
}

fn many_frames(seed: u32, n: usize) -> Vec<([Pat; 3], Option<String>)> {
    (0..n as u32).map(|i| ([0, 1, 2].map(|k| Pat::Flat(hash2(seed, i, k) as u16)), None)).collect()
}

pub fn c15(ctx: &mut Ctx) {
    let n = ctx.cases(200_000, 4_000_000);
    ctx.leg("files", Y4M_RULE, n, || y4m(space, (1, 70), 5), check_y4m);
    let n = ctx.cases(8_000, 150_000);
    ctx.leg("large", Y4M_RULE, n, || y4m(space, (60, 700), 2), check_y4m);
    let n = ctx.cases(3_000, 60_000);
    ctx.leg("long", Y4M_RULE, n, || y4m(space, (1, 20), 120), check_y4m);
    let n = ctx.cases(120, 2_500);
    ctx.leg("far-sides", FAR_Y4M, n, || far(space, None), check_y4m);
    let n = ctx.cases(24, 400);
    ctx.leg(
        "many",
        "the same with around 2^16 tiny frames",
        n,
        || many(y4m(space, (1, 3), 0)),
        |c| check_y4m(&Y4m { video: c.video(&c.of.video), wide: c.of.wide }),
    );
    let n = ctx.cases(8_000, 100_000);
    ctx.leg(
        "standard-input",
        "the same through the decoder for standard input, in a process of its own that is fed in pieces",
        n,
        || y4m(space, (1, 60), 4),
        check_stdin,
    );
}

// ------------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    Truncate(u32),
    Overwrite { at: u32, with: Vec<u8> },
    Insert { at: u32, with: Vec<u8> },
    Delete { at: u32, n: u8 },
    /// The marker of one frame is damaged.
    Marker { frame: u8, kind: u8 },
    Append(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    video: Video,
    damage: Vec<Damage>,
    wide: bool,
}

fn apply(body: &mut Vec<u8>, d: &Damage, frame_len: &[usize]) {
    let pos = |at: u32, n: usize| at as usize % (n + 1);
    match d {
        Damage::Truncate(at) => {
            let k = pos(*at, body.len());
            body.truncate(k);
        }
        Damage::Overwrite { at, with } => {
            let k = pos(*at, body.len());
            for (i, b) in with.iter().enumerate() {
                if let Some(x) = body.get_mut(k + i) {
                    *x = *b;
                }
            }
        }
        Damage::Insert { at, with } => {
            let k = pos(*at, body.len());
            body.splice(k..k, with.iter().copied());
        }
        Damage::Delete { at, n } => {
            let k = pos(*at, body.len());
            let e = (k + *n as usize).min(body.len());
            body.drain(k..e);
        }
        Damage::Marker { frame, kind } => {
            if frame_len.is_empty() {
                return;
            }
            let k: usize = frame_len[..*frame as usize % frame_len.len()].iter().sum();
            if k + 6 > body.len() {
                return;
            }
            match kind % 8 {
                0 => body[k] = b'f',
                1 => body[k + 4] = b'D',
                2 => body[k + 5] = b'X',
                3 => {
                    body.remove(k);
                }
                4 => body.insert(k, b'\n'),
                5 => body[k..k + 5].copy_from_slice(b"frame"),
                6 => {
                    body.insert(k + 5, b'\t');
                }
                _ => body[k + 5] = b' ',
            }
        }
        Damage::Append(x) => body.extend_from_slice(x),
    }
}

fn check_damaged(c: &Damaged) -> CaseResult {
    let v = &c.video;
    let head = v.header.text();
    let mut body = v.bytes()[head.len()..].to_vec();
    let payload: usize = (0..3)
        .map(|p| v.header.geo().dims(p).0 * v.header.geo().dims(p).1 * v.header.bytes())
        .sum();
    let lens: Vec<usize> = v
        .frames
        .iter()
        .map(|f| 6 + f.1.as_ref().map_or(0, |p| p.len() + 1) + payload)
        .collect();
    let intact = body.clone();
    for d in &c.damage {
        apply(&mut body, d, &lens);
    }
    let want: Vec<Raw> = strict_frames(&v.header, &body)
        .iter()
        .map(|r| decoded(r, v.header.space.pos()))
        .collect();
    let mut bytes = head;
    bytes.extend_from_slice(&body);
    let file = Scratch::with(".y4m", &bytes);
    let mut d = open(&file.0)?;
    let wide = c.wide || v.header.space.depth() > 8;
    let got = read_all(&mut d, v.header.geo(), wide, want.len() + 1)?;
    compare(&got, &want)?;
    // Whatever follows must not bring the process down.
    for _ in 0..4 {
        if wide {
            guarded(|| d.read_video_frame::<u16>().is_some())?;
        } else {
            guarded(|| d.read_video_frame::<u8>().is_some())?;
        }
    }
    Ok(Info::new(body != intact)
        .tag_if(want.len() < v.frames.len(), "frames lost to damage")
        .tag_if(want.len() > 0 && want.len() < v.frames.len(), "frames before the damage"))
}

fn damaged() -> BoxedStrategy<Damaged> {
    let bytes = || {
        prop_oneof![
            3 => prop::collection::vec(any::<u8>(), 1..12),
            1 => Just(b"FRAME\n".to_vec()),
            1 => Just(b"\n".to_vec()),
            1 => Just(b"FRAME".to_vec()),
        ]
    };
    let damage = prop_oneof![
        4 => any::<u32>().prop_map(Damage::Truncate),
        3 => (any::<u32>(), bytes()).prop_map(|(at, with)| Damage::Overwrite { at, with }),
        2 => (any::<u32>(), bytes()).prop_map(|(at, with)| Damage::Insert { at, with }),
        2 => (any::<u32>(), 1u8..30).prop_map(|(at, n)| Damage::Delete { at, n }),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(frame, kind)| Damage::Marker { frame, kind }),
        1 => bytes().prop_map(Damage::Append),
    ];
    (
        video(space(), (1, 24), 6),
        prop::collection::vec(damage, 1..4),
        any::<bool>(),
    )
        .prop_map(|(video, damage, wide)| Damaged { video, damage, wide })
        .boxed()
}

/// Every truncation point of a small stream.
fn check_cuts(c: &Y4m) -> CaseResult {
    let v = &c.video;
    let bytes = v.bytes();
    let head = v.header.text().len();
    let want: Vec<Raw> = v.raws().iter().map(|r| decoded(r, v.header.space.pos())).collect();
    let wide = c.wide || v.header.space.depth() > 8;
    let file = Scratch::new(".y4m");
    for cut in 0..=bytes.len() {
        std::fs::write(&file.0, &bytes[..cut]).expect("scratch file");
        if cut < head {
            let r = guarded(|| new_decoder_from_file(&file.0)).map_err(|e| format!("cut at {cut}: {e}"))?;
            if r.is_ok() {
                return Err(format!("a header cut at {cut} of {head} bytes is accepted"));
            }
            continue;
        }
        let n = strict_frames(&v.header, &bytes[head..cut]).len();
        let mut d = open(&file.0).map_err(|e| format!("cut at {cut}: {e}"))?;
        let got = read_all(&mut d, v.header.geo(), wide, n + 1).map_err(|e| format!("cut at {cut}: {e}"))?;
        compare(&got, &want[..n]).map_err(|e| format!("cut at {cut} of {}: {e}", bytes.len()))?;
    }
    Ok(Info::new(!v.frames.is_empty()).tag_if(v.frames.len() > 1, "several frames"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pieces {
    video: Video,
    cuts: Vec<u16>,
    truncate: Option<u16>,
}

/// The stream arrives through a pipe, in pieces.
fn check_pieces(c: &Pieces) -> CaseResult {
    let v = &c.video;
    let mut bytes = v.bytes();
    let head = v.header.text().len();
    if bytes.len() > 60_000 {
        bytes.truncate(60_000); // the capacity of a pipe, so that nobody blocks
    }
    if let Some(t) = c.truncate {
        let k = head + (t as usize * (bytes.len() - head) / 65536);
        bytes.truncate(k);
    }
    // Opening a pipe by this name waits for nobody, and the data stay as long as
    // the reader lives, however late the decoder comes.
    let (reader, mut w) = std::io::pipe().expect("a pipe");
    let path = PathBuf::from(format!("/proc/self/fd/{}", reader.as_raw_fd()));
    let mut at: Vec<usize> = c.cuts.iter().map(|k| *k as usize % (bytes.len() + 1)).collect();
    at.push(0);
    at.push(bytes.len());
    at.sort();
    let data = bytes.clone();
    let feeder = std::thread::spawn(move || {
        for k in at.windows(2) {
            w.write_all(&data[k[0]..k[1]]).expect("the pipe");
            std::thread::sleep(std::time::Duration::from_micros(150));
        }
    });
    let want: Vec<Raw> = strict_frames(&v.header, &bytes[head..])
        .iter()
        .map(|r| decoded(r, v.header.space.pos()))
        .collect();
    let r = open(&path).and_then(|mut d| {
        let wide = v.header.space.depth() > 8;
        let got = read_all(&mut d, v.header.geo(), wide, want.len() + 1)?;
        compare(&got, &want)
    });
    feeder.join().expect("feeder");
    drop(reader);
    r?;
    Ok(Info::new(!want.is_empty() && c.cuts.len() >= 2))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BadHeader {
    Magic { at: u8, with: u8 },
    Without(char),
    Param(String),
    NoNewline,
    Empty,
    Long(u16),
    Cut(u16),
    Missing,
    Directory,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HeaderCase {
    header: Header,
    bad: BadHeader,
}

fn check_header(c: &HeaderCase) -> CaseResult {
    let h = &c.header;
    let good = h.text();
    let params = String::from_utf8(good[10..good.len() - 1].to_vec()).unwrap();
    let line = |p: &str| format!("YUV4MPEG2 {p}\n").into_bytes();
    let head = match &c.bad {
        BadHeader::Magic { at, with } => {
            let mut g = good.clone();
            let k = *at as usize % 10;
            g[k] = if g[k] == *with { with.wrapping_add(1) } else { *with };
            g
        }
        BadHeader::Without(k) => {
            let p: Vec<&str> = params.split(' ').filter(|p| !p.starts_with(*k)).collect();
            line(&p.join(" "))
        }
        BadHeader::Param(text) => {
            // In the place of the parameter of the same name.
            let k = text.chars().next().unwrap();
            let mut p: Vec<&str> = params.split(' ').filter(|p| !p.starts_with(k)).collect();
            p.push(text);
            line(&p.join(" "))
        }
        BadHeader::NoNewline => good[..good.len() - 1].to_vec(),
        BadHeader::Empty => vec![],
        BadHeader::Long(n) => line(&format!("{params} X{}", "y".repeat(1024 + *n as usize))),
        BadHeader::Cut(n) => good[..*n as usize % (good.len() - 1)].to_vec(),
        BadHeader::Missing | BadHeader::Directory => vec![],
    };
    let mut bytes = head;
    if !matches!(c.bad, BadHeader::NoNewline | BadHeader::Empty | BadHeader::Cut(_)) {
        bytes.extend_from_slice(b"FRAME\n");
        bytes.extend(std::iter::repeat(7u8).take(h.w * h.h * 6));
    }
    let file = match c.bad {
        BadHeader::Missing => Scratch::new(".y4m"),
        BadHeader::Directory => Scratch::dir(),
        _ => Scratch::with(".y4m", &bytes),
    };
    let r = guarded(|| new_decoder_from_file(&file.0).map(|d| d.get_video_details()));
    match r {
        Err(e) => Err(format!("opening the file: {e}")),
        Ok(Ok(d)) => Err(format!("a malformed or unsupported file is accepted as {d:?}")),
        Ok(Err(_)) => Ok(Info::new(true)),
    }
}

fn bad_header() -> BoxedStrategy<HeaderCase> {
    let param = prop::sample::select(
        [
            "W0", "H0", "W", "H", "W-4", "H-4", "Wx", "H1x", "W0x10", "H 8", "W8.5", "H1e2", "F", "F30",
            "F:1", "F30:", "Fa:b", "F30:1:1", "F-1:1", "A1", "Ax:1", "A1:", "C", "C411", "C420p9",
            "C420p14", "C420p16", "C422p16", "C444p16", "C444p14", "C444alpha", "Cmono10", "Cmono16",
            "C4200", "C42", "C420JPEG", "C420p8", "C422p1", "CMONO", "Cyuv",
            "W99999999999999999999999", "H99999999999999999999999",
        ]
        .map(String::from)
        .to_vec(),
    )
    .prop_filter("H 8 is a valid split", |s| s != "H 8");
    let bad = prop_oneof![
        3 => (any::<u8>(), any::<u8>()).prop_map(|(at, with)| BadHeader::Magic { at, with }),
        2 => prop::sample::select(vec!['W', 'H']).prop_map(BadHeader::Without),
        8 => param.prop_map(BadHeader::Param),
        1 => Just(BadHeader::NoNewline),
        1 => Just(BadHeader::Empty),
        1 => (0u16..3000).prop_map(BadHeader::Long),
        2 => any::<u16>().prop_map(BadHeader::Cut),
        1 => Just(BadHeader::Missing),
        1 => Just(BadHeader::Directory),
    ];
    (header(space(), (1, 12)), bad)
        .prop_map(|(header, bad)| HeaderCase { header, bad })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    space: Space,
    w: u64,
    h: u64,
    rest: u16,
}

/// Cases in which the number of bytes of a frame does not fit 64 bits: see
/// known-findings.txt.
static GIANT: AtomicUsize = AtomicUsize::new(0);

fn check_giant(c: &Giant) -> CaseResult {
    let bytes = if c.space.depth() > 8 { 2 } else { 1 };
    let (w, h) = (c.w as u128, c.h as u128);
    let (xd, yd) = c.space.cs().dec();
    let chroma = if c.space.cs() == Cs::C400 { 0 } else { ((w + xd as u128) >> xd) * ((h + yd as u128) >> yd) };
    let total = (w.saturating_mul(h).saturating_add(chroma.saturating_mul(2))).saturating_mul(bytes);
    let mut data = format!("YUV4MPEG2 W{} H{} F25:1", c.w, c.h);
    if c.space != Space::Default {
        data += &format!(" C{}", c.space.name());
    }
    data += "\nFRAME\n";
    let mut data = data.into_bytes();
    data.extend((0..(c.rest as u128).min(total.saturating_sub(1))).map(|i| i as u8));
    let file = Scratch::with(".y4m", &data);
    let got = guarded(|| {
        new_decoder_from_file(&file.0).map(|mut d| {
            let v = d.get_video_details();
            let frame = if bytes == 2 {
                d.read_video_frame::<u16>().is_some()
            } else {
                d.read_video_frame::<u8>().is_some()
            };
            (v.width, v.height, frame)
        })
    });
    let name = format!("a {}x{} {} stream", c.w, c.h, c.space.name());
    match got {
        Err(e) if total > u64::MAX as u128 || c.w == u64::MAX || c.h == u64::MAX => {
            if !e.contains("overflow") || !e.contains("/y4m-") {
                return Err(format!("{name}: {e}"));
            }
            GIANT.fetch_add(1, Ordering::Relaxed);
            Ok(Info::new(true).tag("known finding"))
        }
        Err(e) => Err(format!("{name}: {e}")),
        Ok(Ok((w, h, frame))) => {
            if (w as u64, h as u64) != (c.w, c.h) {
                return Err(format!("{name} is opened as one of {w}x{h}"));
            }
            if frame {
                return Err(format!("{name} yields a frame from part of one"));
            }
            if total > u64::MAX as u128 {
                return Err(format!("{name} is opened"));
            }
            Ok(Info::new(true).tag("accepted"))
        }
        // No limit is promised, but what is small has to be read.
        Ok(Err(e)) if total < 1 << 26 => Err(format!("{name} is refused: {e}")),
        Ok(Err(_)) => Ok(Info::new(true).tag("refused")),
    }
}

fn giant() -> BoxedStrategy<Giant> {
    fn side() -> BoxedStrategy<u64> {
        prop_oneof![
            4 => (0u32..64, any::<u64>()).prop_map(|(s, v)| ((1 << s) | (v & ((1 << s) - 1))).max(1)),
            1 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(1).max(1)),
            1 => Just(u64::MAX),
        ]
        .boxed()
    }
    (space(), side(), side(), any::<u16>())
        .prop_map(|(space, w, h, rest)| Giant { space, w, h, rest })
        .boxed()
}

pub fn c16(ctx: &mut Ctx) {
    let n = ctx.cases(300_000, 6_000_000);
    ctx.leg(
        "damage",
        "a generated stream whose frames are truncated, overwritten, inserted into, deleted from, or \
         whose frame markers are damaged, against an own strict reader; non-trivial if the bytes differ",
        n,
        damaged,
        check_damaged,
    );
    let n = ctx.cases(600, 10_000);
    ctx.leg(
        "every-cut",
        "every truncation point of a small stream; non-trivial if it has a frame",
        n,
        || y4m(space, (1, 9), 3),
        check_cuts,
    );
    let n = ctx.cases(8_000, 100_000);
    ctx.leg(
        "pieces",
        "a stream, possibly truncated, that arrives through a pipe in pieces (short reads); \
         non-trivial if it has a complete frame and is cut at two places or more",
        n,
        || {
            (
                video(space(), (1, 30), 4),
                prop::collection::vec(any::<u16>(), 0..8),
                prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)],
            )
                .prop_map(|(video, cuts, truncate)| Pieces { video, cuts, truncate })
                .boxed()
        },
        check_pieces,
    );
    let n = ctx.cases(80_000, 1_000_000);
    ctx.leg(
        "headers",
        "stream headers with one defect (signature, missing or malformed size, rate, aspect, \
         unsupported colour space, no end, over-long, cut; missing file; directory): an error, not a \
         decoder; always non-trivial",
        n,
        bad_header,
        check_header,
    );
    let n = ctx.cases(20_000, 400_000);
    ctx.leg(
        "giant-sizes",
        "headers with sides up to 2^64-1 before a part of a frame: an error or a decoder that yields no \
         frame; always non-trivial",
        n,
        giant,
        check_giant,
    );
    let n = GIANT.load(Ordering::Relaxed);
    if n > 0 {
        ctx.known(
            "giant-sizes",
            &format!(
                "opening a Y4M file panics if the bytes of a frame of the size in its header do not fit \
                 64 bits (overflow in the y4m crate, get_plane_sizes; {n} cases of this run)"
            ),
        );
    }
}

// ------------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chroma {
    w: usize,
    h: usize,
    pat: Pat,
    edits: Vec<Edit>,
    depth: usize,
    /// Sample values beyond the depth.
    beyond: bool,
    wide_source: bool,
    wide_plane: bool,
    pos: u8,
    pad: u8,
    fill: u32,
    layout: Layout,
    /// The source ends with its last visible sample.
    tight: bool,
}

const POSITIONS: [Pos; 5] = [
    Pos::Vertical,
    Pos::Unknown,
    Pos::Colocated,
    Pos::Bilateral,
    Pos::Interpolated,
];

fn check_chroma(c: &Chroma) -> CaseResult {
    let bits = if c.beyond { if c.wide_source { 16 } else { 8 } } else { c.depth };
    let geo = Geo { w: c.w, h: c.h, cs: Cs::C400, depth: bits };
    let src = Raw::render(geo, &[c.pat, c.pat, c.pat], &c.edits);
    let p = &src.planes[0];
    let bytes = 1 + c.wide_source as usize;
    let stride = c.w * bytes + c.pad as usize * bytes;
    let mut data = vec![0u8; stride * c.h];
    for (i, b) in data.iter_mut().enumerate() {
        *b = (hash2(c.fill, i as u32, 9) & 0xff) as u8;
    }
    for y in 0..c.h {
        for x in 0..c.w {
            let v = p.at(x, y);
            let o = y * stride + x * bytes;
            data[o] = v as u8;
            if bytes == 2 {
                data[o + 1] = (v >> 8) as u8;
            }
        }
    }
    if c.tight {
        data.truncate((c.h - 1) * stride + c.w * bytes);
    }
    let pos = POSITIONS[c.pos as usize % POSITIONS.len()];
    fn go<T: Pixel>(c: &Chroma, geo: Geo, pos: Pos, data: &[u8], stride: usize, bytes: usize) -> Result<Raw, String> {
        let blank = Raw::render(geo, &[Pat::Flat(12345); 3], &[]);
        let mut f = blank.frame::<T>(&c.layout);
        // Samples that are left alone would show.
        for v in f.planes[0].data.iter_mut() {
            *v = T::cast_from(0xabu8);
        }
        guarded(|| convert_chroma_data(&mut f.planes[0], pos, c.depth, data, stride, bytes))?;
        Ok(Raw::from_frame(geo, &f))
    }
    let got = if c.wide_plane || c.wide_source {
        go::<u16>(c, geo, pos, &data, stride, bytes)
    } else {
        go::<u8>(c, geo, pos, &data, stride, bytes)
    }?;
    let mut want = src.clone();
    if pos == Pos::Vertical {
        for y in 0..c.h {
            let row: Vec<u32> = (0..c.w).map(|x| p.at(x, y)).collect();
            for (x, v) in realign(&row, c.depth).into_iter().enumerate() {
                want.planes[0].d[y * c.w + x] = v as u16;
            }
        }
    }
    if let Some(d) = want.first_diff(&got) {
        return Err(format!("{pos:?}, {} bits: {d}", c.depth));
    }
    let clamped = pos == Pos::Vertical && {
        let m = (1u32 << c.depth) - 1;
        want.planes[0].d.iter().zip(&p.d).any(|(a, b)| a != b && (*a == 0 || *a as u32 == m))
    };
    Ok(Info::new(c.pad > 0 || c.w < 6 || pos == Pos::Vertical)
        .tag_if(pos == Pos::Vertical, "filtered")
        .tag_if(pos == Pos::Vertical && c.w < 6, "filtered, narrower than the filter")
        .tag_if(clamped, "clamped")
        .tag_if(c.layout.left > 0 || c.layout.xpad > 0, "padded plane"))
}

fn chroma() -> BoxedStrategy<Chroma> {
    (
        (side(1, 90), prop_oneof![3 => 1usize..8, 1 => 1usize..40]),
        pat(),
        edits(4),
        prop_oneof![2 => Just(8usize), 2 => Just(10), 1 => Just(12), 1 => 8usize..=16],
        (any::<bool>(), any::<bool>(), any::<bool>()),
        prop_oneof![3 => Just(0u8), 2 => 0u8..5],
        prop_oneof![1 => Just(0u8), 2 => 1u8..40],
        any::<u32>(),
        layout(),
        any::<bool>(),
    )
        .prop_map(
            |((w, h), pat, edits, depth, (beyond, wide_source, wide_plane), pos, pad, fill, layout, tight)| Chroma {
                w,
                h,
                pat,
                edits,
                depth,
                beyond,
                wide_source: wide_source || depth > 8,
                wide_plane,
                pos,
                pad,
                fill,
                layout,
                tight,
            },
        )
        .boxed()
}

fn vertical_space() -> BoxedStrategy<Space> {
    prop::sample::select(vec![
        Space::C420mpeg2,
        Space::C422,
        Space::C422p10,
        Space::C422p12,
    ])
    .boxed()
}

pub fn c17(ctx: &mut Ctx) {
    let n = ctx.cases(1_500_000, 20_000_000);
    ctx.leg(
        "planes",
        "convert_chroma_data on generated rows (widths from 1, strides, source padding contents, \
         destination layouts, one- and two-byte sources, five sitings, values beyond the depth) \
         against the filter written from its definition; non-trivial if filtered, padded or narrow",
        n,
        chroma,
        check_chroma,
    );
    let n = ctx.cases(3_000, 60_000);
    ctx.leg(
        "long-planes",
        "the same with widths up to 70000 and few rows, or many rows; non-trivial as above",
        n,
        || {
            (chroma(), large_sides(None))
                .prop_map(|(mut c, (w, h))| {
                    // Of the large pictures, a part.
                    (c.w, c.h) = if w.min(h) > 100 { (w, h.min(40)) } else { (w, h) };
                    c
                })
                .boxed()
        },
        check_chroma,
    );
    let n = ctx.cases(60_000, 1_000_000);
    ctx.leg(
        "streams",
        "4:2:2 and 4:2:0mpeg2 streams through the Y4M decoder; non-trivial as C15",
        n,
        || y4m(vertical_space, (1, 60), 3),
        check_y4m,
    );
}

// ------------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Read1 {
    Next,
    Specific(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seek {
    video: Video,
    ops: Vec<Read1>,
    /// 0: test decoder, 1: Y4M decoder, 2: FFmpeg decoder.
    with: u8,
}

fn seek_ops<T: Pixel, D: Decoder>(
    d: &mut D,
    frames: &[Raw],
    ops: &[Read1],
    geo: Geo,
    reads: Option<Arc<std::sync::atomic::AtomicUsize>>,
) -> Result<(usize, usize), String> {
    let count = || reads.as_ref().map_or(0, |r| r.load(Ordering::SeqCst));
    let mut pos = 0;
    let (mut seeks, mut past) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        let before = count();
        let rest = frames.len() - pos;
        let (got, k) = match *op {
            Read1::Next => (guarded(|| d.read_video_frame::<T>()), 0u64),
            Read1::Specific(n) => (guarded(|| d.read_specific_frame::<T>(n as usize)), n),
        };
        let what = format!("operation {i} ({op:?}) at frame {pos} of {}", frames.len());
        let got = got.map_err(|e| format!("{what}: {e}"))?;
        let got = got.map(|f| Raw::from_frame(geo, &f));
        if k < rest as u64 {
            let want = pos + k as usize;
            match got {
                None => return Err(format!("{what} returns nothing instead of frame {want}")),
                Some(g) => {
                    if let Some(e) = frames[want].first_diff(&g) {
                        let other = frames.iter().position(|f| *f == g);
                        return Err(format!("{what} should return frame {want}: {e} (it is frame {other:?})"));
                    }
                }
            }
            pos = want + 1;
            if k > 0 {
                seeks += 1;
            }
        } else {
            if got.is_some() {
                return Err(format!("{what} returns a frame past the end"));
            }
            pos = frames.len();
            past += 1;
        }
        if reads.is_some() && count() - before > rest.min(k as usize) + 1 {
            return Err(format!("{what} reads {} frames", count() - before));
        }
    }
    Ok((seeks, past))
}

fn check_seek(c: &Seek) -> CaseResult {
    let v = &c.video;
    let geo = v.header.geo();
    let raws = v.raws();
    let wide = geo.depth > 8;
    let (seeks, past) = match c.with {
        0 => {
            let mut d = Mock::new(geo, Arc::new(raws.clone()));
            let reads = Some(d.reads.clone());
            if wide {
                seek_ops::<u16, _>(&mut d, &raws, &c.ops, geo, reads)?
            } else {
                seek_ops::<u8, _>(&mut d, &raws, &c.ops, geo, reads)?
            }
        }
        2 => {
            let want: Vec<Raw> = raws.iter().map(|r| decoded(r, ff_pos(geo.cs))).collect();
            let file = Scratch::with(".y4m", &v.bytes());
            let mut d = open_ff(&file.0)?;
            if wide {
                seek_ops::<u16, _>(&mut d, &want, &c.ops, geo, None)?
            } else {
                seek_ops::<u8, _>(&mut d, &want, &c.ops, geo, None)?
            }
        }
        _ => {
            let want: Vec<Raw> = raws.iter().map(|r| decoded(r, v.header.space.pos())).collect();
            let file = Scratch::with(".y4m", &v.bytes());
            let mut d = open(&file.0)?;
            if wide {
                seek_ops::<u16, _>(&mut d, &want, &c.ops, geo, None)?
            } else {
                seek_ops::<u8, _>(&mut d, &want, &c.ops, geo, None)?
            }
        }
    };
    Ok(Info::new(seeks >= 1 && c.ops.len() >= 2)
        .tag_if(past > 0, "past the end")
        .tag_if(c.with == 0, "test decoder")
        .tag_if(c.with == 1, "Y4M decoder")
        .tag_if(c.with == 2, "FFmpeg decoder"))
}

/// Reads by number in compressed video, where frames may be stored in another order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SeekCoded {
    coded: Coded,
    ops: Vec<Read1>,
}

fn check_seek_coded(c: &SeekCoded) -> CaseResult {
    let geo = c.coded.geo();
    let file = Scratch::new(&format!(".{}", c.coded.container()));
    if encode(&c.coded, &file.0).is_err() {
        return Ok(Info::new(false).tag("cannot be encoded"));
    }
    let wide = geo.depth > 8;
    let Ok(mut d) = open_ff(&file.0) else {
        return Ok(Info::new(false).tag("cannot be opened")); // C22
    };
    // The frames one after the other, as C22 checks them.
    let want = read_all(&mut d, geo, wide, 1000)?;
    let mut d = open_ff(&file.0)?;
    let (seeks, past) = if wide {
        seek_ops::<u16, _>(&mut d, &want, &c.ops, geo, None)?
    } else {
        seek_ops::<u8, _>(&mut d, &want, &c.ops, geo, None)?
    };
    Ok(Info::new(seeks >= 1 && c.ops.len() >= 2)
        .tag_if(past > 0, "past the end")
        .tag_if(c.coded.reordered(), "frames may be reordered"))
}

fn seek_coded() -> BoxedStrategy<SeekCoded> {
    let n = prop_oneof![6 => 0u64..4, 3 => 0u64..16];
    let op = prop_oneof![2 => Just(Read1::Next), 3 => n.prop_map(Read1::Specific)];
    (any_coded(24, 24), prop::collection::vec(op, 1..14))
        .prop_map(|(coded, ops)| SeekCoded { coded, ops })
        .boxed()
}

/// Very many frames and numbers of that size.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SeekMany {
    of: Seek,
    seed: u32,
    n: usize,
}

fn seek_many() -> BoxedStrategy<SeekMany> {
    let n = || {
        prop_oneof![
            3 => 0u64..70_000,
            2 => prop::sample::select(vec![255u64, 256, 257, 1000, 4096, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537]),
            2 => 0u64..300,
        ]
    };
    let op = prop_oneof![1 => Just(Read1::Next), 4 => n().prop_map(Read1::Specific)];
    (
        video(space(), (1, 2), 0),
        any::<u32>(),
        prop_oneof![300usize..5_000, 65_500usize..66_000],
        prop::collection::vec(op, 1..8),
        0u8..2,
    )
        .prop_map(|(mut video, seed, n, ops, with)| {
            video.frames.clear();
            SeekMany { of: Seek { video, ops, with }, seed, n }
        })
        .boxed()
}

fn seek(with: u8, far: bool) -> BoxedStrategy<Seek> {
    let n = if far {
        prop_oneof![
            6 => 0u64..4,
            3 => 0u64..16,
            1 => prop::sample::select(vec![u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 100_000]),
        ]
        .boxed()
    } else {
        prop_oneof![6 => 0u64..4, 3 => 0u64..16].boxed()
    };
    let op = prop_oneof![2 => Just(Read1::Next), 3 => n.prop_map(Read1::Specific)];
    let clip = if with == 2 {
        ff_video((1, 12), 24)
    } else {
        video(space(), (1, 12), 24)
    };
    (clip, prop::collection::vec(op, 1..14))
        .prop_map(move |(mut video, ops)| {
            // Frames can be told apart.
            for (i, f) in video.frames.iter_mut().enumerate() {
                f.0[0] = Pat::Flat((i * 2600 + 900) as u16);
            }
            Seek { video, ops, with }
        })
        .boxed()
}

pub fn c18(ctx: &mut Ctx) {
    const RULE: &str = "sequences of next-frame and specific-frame reads against the model 'list \
        and position', with numbers far past the end; non-trivial if a later frame is reached by \
        its number and there are two operations";
    let n = ctx.cases(500_000, 6_000_000);
    ctx.leg("default-method", RULE, n, || seek(0, true), check_seek);
    let n = ctx.cases(150_000, 2_000_000);
    // A decoder that never gives up would not return: only the test decoder,
    // which counts its reads, is asked for frames that are astronomically far.
    ctx.leg("y4m", RULE, n, || seek(1, false), check_seek);
    let n = ctx.cases(20_000, 300_000);
    ctx.leg("ffmpeg", RULE, n, || seek(2, false), check_seek);
    let n = ctx.cases(2_500, 40_000);
    ctx.leg(
        "compressed",
        "the same operations on encoded clips (codecs and containers of C22) against the frames read \
         one after the other; non-trivial as above",
        n,
        seek_coded,
        check_seek_coded,
    );
    let n = ctx.cases(300, 4_000);
    ctx.leg("many", "the same with up to 66000 frames; non-trivial as above", n, seek_many, |c| {
        let video = Video { frames: many_frames(c.seed, c.n), ..c.of.video.clone() };
        check_seek(&Seek { video, ..c.of.clone() })
    });
}

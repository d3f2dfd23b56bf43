//! C21, C22: the FFmpeg decoder.

use super::decode::{large_sides, many, compare, open, read_all};
use crate::ff::{self, Audio, Recipe, Times};
use crate::metric::*;
use crate::pic::*;
use crate::run::*;
use crate::y4m::*;
use av_metrics::video::decode::{Decoder, VideoDetails};
use av_metrics::video::{ChromaSamplePosition as Pos, Pixel};
use av_metrics_decoders::FfmpegDecoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Command, Stdio};

pub(super) fn open_ff(path: &Path) -> Result<FfmpegDecoder, String> {
    ff::init();
    guarded(|| FfmpegDecoder::new(path))
        .map_err(|e| format!("opening the file with FFmpeg: {e}"))?
        .map_err(|e| format!("FFmpeg cannot open the file: {e}"))
}

/// The siting FFmpeg assumes for a pixel format.
pub(super) fn ff_pos(cs: Cs) -> Pos {
    if cs == Cs::C422 {
        Pos::Vertical
    } else {
        Pos::Colocated
    }
}

fn basics(d: &VideoDetails) -> String {
    format!("{}x{} {} bits {:?}", d.width, d.height, d.bit_depth, d.chroma_sampling)
}

// ------------------------------------------------------------------- C21

fn interchangeable() -> BoxedStrategy<Space> {
    prop::sample::select(SPACES.iter().copied().filter(|s| s.cs() != Cs::C400).collect::<Vec<_>>()).boxed()
}

/// Streams that FFmpeg's reader accepts, too: it limits the length of headers
/// and the size of numbers.
pub(super) fn ff_video(sides: (usize, usize), frames: usize) -> BoxedStrategy<Video> {
    (
        video(interchangeable(), sides, frames),
        prop_oneof![
            1 => Just(None),
            3 => (1u32..130, 1u32..4).prop_map(Some),
            2 => prop::sample::select(vec![(30000u32, 1001u32), (24000, 1001), (50, 2), (100, 4)]).prop_map(Some),
        ],
    )
        .prop_map(|(mut v, rate)| {
            v.header.rate = rate;
            v.header.extra.retain(|e| !e.is_empty() && !e.starts_with("XYSCSS"));
            v.header.extra.truncate(2);
            for f in &mut v.frames {
                f.1 = f.1.take().filter(|p| p.len() < 60 && p.as_str() == "Ip");
            }
            if v.frames.is_empty() {
                v.frames.push(([Pat::Flat(20000); 3], None));
            }
            // FFmpeg decodes raw video as it is stored.
            v.beyond = false;
            v
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Both {
    video: Video,
    wide: bool,
}

fn same_rate(a: &VideoDetails, b: &VideoDetails) -> bool {
    a.time_base.num as u128 * b.time_base.den as u128 == b.time_base.num as u128 * a.time_base.den as u128
        && a.time_base.den != 0
        && b.time_base.den != 0
}

fn check_both(c: &Both) -> CaseResult {
    let v = &c.video;
    let geo = v.header.geo();
    let file = Scratch::with(".y4m", &v.bytes());
    let mut a = open(&file.0)?;
    let mut b = open_ff(&file.0)?;
    let (da, db) = (a.get_video_details(), b.get_video_details());
    if basics(&da) != basics(&db) || a.get_bit_depth() != b.get_bit_depth() {
        return Err(format!("details: Y4M {}, FFmpeg {}", basics(&da), basics(&db)));
    }
    if !same_rate(&da, &db) {
        return Err(format!(
            "time base: Y4M {}/{}, FFmpeg {}/{}",
            da.time_base.num, da.time_base.den, db.time_base.num, db.time_base.den
        ));
    }
    let wide = c.wide || geo.depth > 8;
    let max = v.frames.len() + 1;
    let fa = read_all(&mut a, geo, wide, max).map_err(|e| format!("Y4M: {e}"))?;
    let fb = read_all(&mut b, geo, wide, max).map_err(|e| format!("FFmpeg: {e}"))?;
    let same = v.header.space.pos() == Pos::Vertical && geo.cs == Cs::C422 || v.header.space.pos() != Pos::Vertical;
    let luma = |r: &Raw| {
        let mut r = r.clone();
        for p in &mut r.planes[1..] {
            p.d.iter_mut().for_each(|v| *v = 0);
        }
        r
    };
    if same {
        compare(&fb, &fa).map_err(|e| format!("FFmpeg against Y4M: {e}"))?;
    } else {
        let (la, lb): (Vec<Raw>, Vec<Raw>) = (fa.iter().map(luma).collect(), fb.iter().map(luma).collect());
        compare(&lb, &la).map_err(|e| format!("FFmpeg against Y4M, luma: {e}"))?;
    }
    // And both against what is stored.
    let want: Vec<Raw> = v.raws().iter().map(|r| decoded(r, ff_pos(geo.cs))).collect();
    compare(&fb, &want).map_err(|e| format!("FFmpeg against the file: {e}"))?;
    for _ in 0..2 {
        if !read_all(&mut b, geo, wide, 0)?.is_empty() {
            return Err("FFmpeg: a frame after the end".into());
        }
    }
    Ok(Info::new(fa.len() > 1 || geo.w % 8 != 0)
        .tag_if(same, "same siting")
        .tag_if(geo.cs == Cs::C422, "realigned by both")
        .tag_if(geo.depth > 8, "two-byte samples")
        .tag_if(geo.w % 32 != 0, "line size exceeds the width"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BothScores {
    video: Video,
    diff: Diff,
    /// Additional or missing frames of the second clip.
    extra: i8,
}

fn check_scores(c: &BothScores) -> CaseResult {
    let v = &c.video;
    let h = &v.header;
    let raws = v.raws();
    let n = (raws.len() as i64 + c.extra as i64).max(1) as usize;
    let file = Scratch::with(".y4m", &v.bytes());
    let mut second = h.text();
    for k in 0..n {
        second.extend_from_slice(b"FRAME\n");
        let r = raws.get(k).or(raws.last()).unwrap().derive(&c.diff);
        put_samples(&mut second, &r, h.bytes());
    }
    let other = Scratch::with(".y4m", &second);
    let mut scored = 0;
    for m in VIDEO_METRICS {
        let (mut a, mut b) = (open(&file.0)?, open(&other.0)?);
        let s1 = guarded(|| video_score(m, &mut a, &mut b, None, |_| {}))?;
        let (mut a, mut b) = (open_ff(&file.0)?, open_ff(&other.0)?);
        let s2 = guarded(|| video_score(m, &mut a, &mut b, None, |_| {}))?;
        match (s1, s2) {
            (Ok(x), Ok(y)) => {
                scored += 1;
                if x.values().len() != y.values().len() || !x.values().iter().zip(y.values()).all(|(p, q)| close(m, *p, q)) {
                    return Err(format!("{m:?}: Y4M {x:?}, FFmpeg {y:?}"));
                }
            }
            (Err(_), Err(_)) => {}
            (x, y) => return Err(format!("{m:?}: Y4M {x:?}, FFmpeg {y:?}")),
        }
    }
    Ok(Info::new(scored > 0 && c.diff != Diff::Same).tag_if(scored == 6, "all metrics"))
}

pub fn c21(ctx: &mut Ctx) {
    const RULE: &str = "one Y4M file through both decoders: details, time base, number of frames, luma \
        and (same siting) chroma samples, and FFmpeg's frames against the stored ones; non-trivial if \
        there are two frames or the width is not a multiple of 8";
    let both = |sides: (usize, usize), frames: usize| {
        (ff_video(sides, frames), any::<bool>())
            .prop_map(|(video, wide)| Both { video, wide })
            .boxed()
    };
    let n = ctx.cases(30_000, 500_000);
    ctx.leg("files", RULE, n, || both((1, 70), 5), check_both);
    let n = ctx.cases(2_500, 40_000);
    ctx.leg("large", RULE, n, || both((60, 500), 3), check_both);
    let n = ctx.cases(800, 12_000);
    ctx.leg("long", RULE, n, || both((1, 20), 120), check_both);
    let n = ctx.cases(120, 2_500);
    ctx.leg(
        "far-sides",
        "the same with one side of up to 131073 samples, or the size of a film; non-trivial as above",
        n,
        || {
            (both((1, 2), 2), large_sides(None))
                .prop_map(|(mut c, (w, h))| {
                    (c.video.header.w, c.video.header.h) = (w, h);
                    c
                })
                .boxed()
        },
        check_both,
    );
    let n = ctx.cases(16, 300);
    ctx.leg(
        "many",
        "the same with around 2^16 tiny frames; non-trivial as above",
        n,
        || many(both((1, 3), 1)),
        |c| check_both(&Both { video: c.video(&c.of.video), wide: c.of.wide }),
    );
    let n = ctx.cases(4_000, 80_000);
    ctx.leg(
        "scores",
        "two clips, all six metrics through either decoder; non-trivial if there is a score and a difference",
        n,
        || {
            (ff_video((8, 64), 4), diff(), prop_oneof![3 => Just(0i8), 1 => -2i8..3])
                .prop_map(|(mut video, diff, extra)| {
                    if video.header.space == Space::C420mpeg2 {
                        video.header.space = Space::C420jpeg;
                    }
                    BothScores { video, diff, extra }
                })
                .boxed()
        },
        check_scores,
    );
}

// ------------------------------------------------------------------- C22

struct Codec {
    name: &'static str,
    /// Options that can be given together, each list one choice.
    opts: &'static [&'static [(&'static str, &'static str)]],
    containers: &'static [&'static str],
    cs: &'static [Cs],
    depths: &'static [usize],
    jpeg: bool,
    bframes: u8,
    /// Smallest side.
    min: usize,
    /// How often it is taken.
    weight: u32,
}

const ALL: &[Cs] = &[Cs::C420, Cs::C422, Cs::C444];
const C420: &[Cs] = &[Cs::C420];
const FREE: &[&str] = &["nut", "matroska", "avi", "mov"];
const NATIVE: &[&str] = &["nut", "matroska", "avi"];
const MODERN: &[&str] = &["nut", "matroska", "mov", "mp4", "avi", "mpegts", "flv"];

/// Codecs that keep every sample.
const LOSSLESS: &[Codec] = &[
    Codec {
        name: "ffv1",
        opts: &[
            &[("level", "3"), ("slices", "4")],
            &[("level", "3"), ("coder", "1"), ("context", "1")],
            &[("level", "3"), ("coder", "1"), ("slices", "16"), ("slicecrc", "1")],
            &[("level", "1")],
        ],
        containers: FREE,
        cs: ALL,
        depths: &[8, 10, 12],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 8,
    },
    Codec {
        name: "ffvhuff",
        opts: &[&[], &[("context", "1")], &[("pred", "median")]],
        containers: NATIVE,
        cs: ALL,
        depths: &[8, 10, 12],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 4,
    },
    Codec {
        name: "huffyuv",
        opts: &[&[], &[("pred", "plane")]],
        containers: NATIVE,
        cs: &[Cs::C422],
        depths: &[8],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 2,
    },
    Codec {
        name: "utvideo",
        opts: &[&[], &[("pred", "median")]],
        containers: NATIVE,
        cs: ALL,
        depths: &[8],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 2,
    },
    Codec {
        name: "magicyuv",
        opts: &[&[], &[("pred", "median")]],
        containers: NATIVE,
        cs: ALL,
        depths: &[8],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 2,
    },
    Codec {
        name: "rawvideo",
        opts: &[&[]],
        containers: &["nut", "matroska"],
        cs: ALL,
        depths: &[8, 10, 12],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 3,
    },
    Codec {
        name: "v210",
        opts: &[&[]],
        containers: FREE,
        cs: &[Cs::C422],
        depths: &[10],
        jpeg: false,
        bframes: 0,
        min: 2,
        weight: 1,
    },
    Codec {
        name: "ljpeg",
        opts: &[&[]],
        containers: NATIVE,
        cs: ALL,
        depths: &[8],
        jpeg: true,
        bframes: 0,
        min: 1,
        weight: 2,
    },
    Codec {
        name: "libx264",
        opts: &[
            &[("qp", "0"), ("preset", "ultrafast"), ("bf", "3"), ("b_strategy", "0")],
            &[("qp", "0"), ("preset", "veryfast"), ("x264-params", "bframes=3:b-adapt=0:b-pyramid=normal:open-gop=1")],
            &[("qp", "0"), ("preset", "veryfast"), ("x264-params", "bframes=7:b-adapt=0:b-pyramid=strict")],
            &[("qp", "0"), ("preset", "ultrafast"), ("x264-params", "tff=1:bframes=2")],
            &[("qp", "0"), ("tune", "zerolatency"), ("preset", "ultrafast")],
        ],
        containers: MODERN,
        cs: ALL,
        depths: &[8, 10],
        jpeg: true,
        bframes: 4,
        min: 2,
        weight: 9,
    },
    Codec {
        name: "libx265",
        opts: &[
            &[("preset", "ultrafast"), ("x265-params", "lossless=1:log-level=none:pools=none:frame-threads=1:bframes=4:b-adapt=0")],
            &[("preset", "ultrafast"), ("x265-params", "lossless=1:log-level=none:pools=none:frame-threads=1:bframes=0")],
        ],
        containers: &["nut", "matroska", "mov", "mp4", "mpegts"],
        cs: ALL,
        depths: &[8, 10, 12],
        jpeg: false,
        bframes: 4,
        min: 16,
        weight: 4,
    },
    Codec {
        name: "libvpx-vp9",
        opts: &[
            &[("lossless", "1"), ("deadline", "good"), ("cpu-used", "8"), ("auto-alt-ref", "1"), ("lag-in-frames", "12")],
            &[("lossless", "1"), ("deadline", "realtime"), ("cpu-used", "8"), ("lag-in-frames", "0")],
        ],
        containers: &["nut", "matroska", "mp4", "webm", "ivf"],
        cs: ALL,
        depths: &[8, 10, 12],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 4,
    },
];

/// Codecs that change samples: compared with an own decoding loop.
const LOSSY: &[Codec] = &[
    Codec {
        name: "mpeg2video",
        opts: &[&[], &[("flags", "+ildct+ilme")]],
        containers: &["nut", "matroska", "avi", "mpegts", "mpeg", "mov"],
        cs: &[Cs::C420, Cs::C422],
        depths: &[8],
        jpeg: false,
        bframes: 4,
        min: 16,
        weight: 4,
    },
    Codec {
        name: "mpeg1video",
        opts: &[&[]],
        containers: &["nut", "matroska", "avi", "mpegts", "mpeg"],
        cs: C420,
        depths: &[8],
        jpeg: false,
        bframes: 4,
        min: 16,
        weight: 2,
    },
    Codec {
        name: "mpeg4",
        opts: &[&[], &[("flags", "+mv4")]],
        containers: &["nut", "matroska", "avi", "mp4", "mov", "mpegts"],
        cs: C420,
        depths: &[8],
        jpeg: false,
        bframes: 4,
        min: 16,
        weight: 4,
    },
    Codec {
        name: "libxvid",
        opts: &[&[]],
        containers: &["nut", "matroska", "avi", "mp4"],
        cs: C420,
        depths: &[8],
        jpeg: false,
        bframes: 3,
        min: 16,
        weight: 1,
    },
    Codec {
        name: "flv",
        opts: &[&[]],
        containers: &["flv", "nut", "matroska"],
        cs: C420,
        depths: &[8],
        jpeg: false,
        bframes: 0,
        min: 16,
        weight: 1,
    },
    Codec {
        name: "msmpeg4",
        opts: &[&[]],
        containers: &["avi", "nut", "asf"],
        cs: C420,
        depths: &[8],
        jpeg: false,
        bframes: 0,
        min: 16,
        weight: 1,
    },
    Codec {
        name: "mjpeg",
        opts: &[&[]],
        containers: FREE,
        cs: ALL,
        depths: &[8],
        jpeg: true,
        bframes: 0,
        min: 8,
        weight: 2,
    },
    Codec {
        name: "jpeg2000",
        opts: &[&[]],
        containers: &["mov", "matroska", "mp4"],
        cs: ALL,
        depths: &[8, 10, 12],
        jpeg: false,
        bframes: 0,
        min: 16,
        weight: 2,
    },
    Codec {
        name: "prores_ks",
        opts: &[&[]],
        containers: &["mov", "matroska"],
        cs: &[Cs::C422, Cs::C444],
        depths: &[10],
        jpeg: false,
        bframes: 0,
        min: 16,
        weight: 2,
    },
    Codec {
        name: "snow",
        opts: &[&[("pred", "1")], &[]],
        containers: &["nut", "avi"],
        cs: &[Cs::C420, Cs::C444],
        depths: &[8],
        jpeg: false,
        bframes: 0,
        min: 32,
        weight: 1,
    },
    Codec {
        name: "libvpx",
        opts: &[
            &[("deadline", "good"), ("cpu-used", "5"), ("auto-alt-ref", "1"), ("lag-in-frames", "10"), ("arnr-maxframes", "5")],
            &[("deadline", "realtime"), ("cpu-used", "8")],
        ],
        containers: &["webm", "matroska", "ivf", "nut"],
        cs: C420,
        depths: &[8],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 3,
    },
    Codec {
        name: "libvpx-vp9",
        opts: &[
            &[("deadline", "good"), ("cpu-used", "8"), ("auto-alt-ref", "1"), ("lag-in-frames", "16"), ("crf", "30")],
            &[("deadline", "realtime"), ("cpu-used", "8")],
        ],
        containers: &["webm", "matroska", "mp4", "ivf"],
        cs: ALL,
        depths: &[8, 10],
        jpeg: false,
        bframes: 0,
        min: 1,
        weight: 3,
    },
    Codec {
        name: "libx264",
        opts: &[
            &[("crf", "28"), ("preset", "veryfast"), ("x264-params", "bframes=5:b-adapt=0:b-pyramid=normal:ref=4:weightp=2")],
            &[("crf", "28"), ("preset", "veryfast"), ("x264-params", "intra-refresh=1:bframes=2")],
            &[("crf", "28"), ("preset", "veryfast"), ("x264-params", "tff=1:bframes=2:open-gop=1")],
        ],
        containers: MODERN,
        cs: ALL,
        depths: &[8, 10],
        jpeg: false,
        bframes: 4,
        min: 2,
        weight: 4,
    },
    Codec {
        name: "libaom-av1",
        opts: &[&[("cpu-used", "8"), ("lag-in-frames", "8"), ("usage", "good"), ("crf", "40")], &[("cpu-used", "8"), ("usage", "realtime")]],
        containers: &["matroska", "mp4", "ivf", "webm"],
        cs: ALL,
        depths: &[8, 10],
        jpeg: false,
        bframes: 0,
        min: 16,
        weight: 1,
    },
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Coded {
    recipe: Recipe,
    geo: Geo,
    frames: Vec<[Pat; 3]>,
    /// Frames differ from their predecessor in few places, or in all.
    still: bool,
    wide: bool,
    lossless: bool,
    /// From this frame on the pictures have another size.
    change: Option<(u8, usize, usize)>,
    /// And another format.
    format: Option<(Cs, usize)>,
    /// From this frame on they are as at first.
    #[serde(default)]
    back: Option<u8>,
    /// The patterns are repeated up to this number of frames.
    #[serde(default)]
    count: Option<usize>,
}

impl Coded {
    pub(super) fn geo(&self) -> Geo {
        self.geo
    }
    pub(super) fn reordered(&self) -> bool {
        self.recipe.bframes > 0
    }
    pub(super) fn container(&self) -> &str {
        &self.recipe.container
    }
    pub(super) fn count(&self) -> usize {
        self.count.unwrap_or(self.frames.len())
    }
    pub(super) fn with_count(&self, n: usize) -> Coded {
        Coded { count: Some(n), ..self.clone() }
    }
    fn raws(&self) -> Vec<Raw> {
        (0..self.count.unwrap_or(self.frames.len()))
            .zip(self.frames.iter().cycle())
            .map(|(i, p)| {
                let pats = if self.still { &self.frames[0] } else { p };
                // A mark in the corner makes the frames distinct.
                let m = ((i * 12347 + 300) % 65536) as u16;
                let edits: Vec<Edit> = (0..3).map(|q| Edit { plane: q, x: 0, y: 0, v: m }).collect();
                let geo = match self.change {
                    Some((at, w, h)) if i >= at as usize && self.back.is_none_or(|b| i < b as usize) => {
                        let (cs, depth) = self.format.unwrap_or((self.geo.cs, self.geo.depth));
                        Geo { w, h, cs, depth }
                    }
                    _ => self.geo,
                };
                Raw::render(geo, pats, &edits)
            })
            .collect()
    }
}

/// Encodes in a process of its own: some encoders crash on odd sizes.
pub(super) fn encode(c: &Coded, path: &Path) -> Result<(), String> {
    let mut child = Command::new(std::env::current_exe().expect("own path"))
        .args(["encode", path.to_str().unwrap()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("own process");
    let mut stdin = child.stdin.take().unwrap();
    let text = serde_json::to_string(c).unwrap();
    let _ = stdin.write_all(text.as_bytes());
    drop(stdin);
    let out = child.wait_with_output().expect("own process");
    if out.status.success() {
        Ok(())
    } else {
        Err(format!("{}: {}", out.status, String::from_utf8_lossy(&out.stdout).trim()))
    }
}

/// The process for that.
pub fn encode_stdin(path: &str) {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("case");
    let c: Coded = serde_json::from_str(&text).expect("case");
    // SAFETY: a plain setting: an encoder that hangs is ended.
    unsafe { libc::alarm(60) };
    if let Err(e) = ff::write(Path::new(path), &c.recipe, &c.raws()) {
        println!("{e}");
        std::process::exit(1);
    }
}

fn next<T: Pixel>(d: &mut FfmpegDecoder, geo: Geo) -> Result<Option<Raw>, String> {
    let frame = guarded(|| d.read_video_frame::<T>())?;
    Ok(frame.map(|f| {
        let g = Geo { w: f.planes[0].cfg.width, h: f.planes[0].cfg.height, ..geo };
        Raw::from_frame(g, &f)
    }))
}

fn check_coded(c: &Coded) -> CaseResult {
    let raws = c.raws();
    let file = Scratch::new(&format!(".{}", c.recipe.container));
    // What cannot be encoded proves nothing.
    if let Err(e) = encode(c, &file.0) {
        if std::env::var_os("AVP_TRACE").is_some() {
            println!("{} {:?} {} {:?}: {e}", c.recipe.codec, c.recipe.opts, c.recipe.container, c.geo);
        }
        return Ok(Info::new(false).tag("cannot be encoded"));
    }
    // The same file through the loop that libav documents.
    let own = match ff::read(&file.0, c.geo, c.recipe.jpeg, c.format.is_some()) {
        Ok(f) => f,
        Err(e) => {
            if std::env::var_os("AVP_TRACE").is_some() {
                println!("{} {:?} {} {:?}: {e}", c.recipe.codec, c.recipe.opts, c.recipe.container, c.geo);
            }
            return Ok(Info::new(false).tag("cannot be decoded by libav itself"));
        }
    };
    let exact = own == raws;
    if c.lossless && !exact {
        if std::env::var_os("AVP_TRACE").is_some() {
            println!(
                "{} {:?} {} {:?}: not lossless: {:?}",
                c.recipe.codec,
                c.recipe.opts,
                c.recipe.container,
                c.geo,
                compare(&own, &raws)
            );
        }
    }
    if own.first().map_or(true, |r| r.geo != c.geo) {
        return Ok(Info::new(false).tag("no frame in the file, or its first frame has another size"));
    }
    let mut d = open_ff(&file.0)?;
    let det = d.get_video_details();
    let want = format!("{}x{} {} bits {:?}", c.geo.w, c.geo.h, c.geo.depth, c.geo.cs.lib());
    if basics(&det) != want {
        return Err(format!("details are {}, encoded was {want}", basics(&det)));
    }
    let allowed = match (c.geo.cs, c.recipe.jpeg) {
        (Cs::C422, false) => vec![Pos::Vertical],
        (Cs::C422, true) => vec![Pos::Vertical, Pos::Colocated],
        _ => vec![Pos::Colocated],
    };
    if !allowed.contains(&det.chroma_sample_position) {
        return Err(format!("chroma position {:?}", det.chroma_sample_position));
    }
    let want: Vec<Raw> = own.iter().map(|r| decoded(r, det.chroma_sample_position)).collect();
    let wide = c.wide || c.geo.depth > 8;
    if c.format.is_some() {
        // What follows the change of the format is not specified, but if that
        // is the end, it is the end.
        let n = want.len();
        let mut got = vec![];
        let mut ended = false;
        for i in 0..c.frames.len() + 3 {
            let next = if wide { next::<u16>(&mut d, c.geo) } else { next::<u8>(&mut d, c.geo) };
            let next = next.map_err(|e| format!("frame {i}, of which {n} before the change: {e}"))?;
            if ended && next.is_some() {
                return Err(format!("read {i} returns a frame after the end"));
            }
            ended |= next.is_none();
            if i < n {
                got.extend(next);
            }
        }
        compare(&got, &want)?;
        let more = c.frames.len() - n.min(c.frames.len());
        return Ok(Info::new(n > 0 && more > 0)
            .tag_if(c.back.is_some_and(|b| (b as usize) < c.frames.len()), "and back")
            .tag_if(c.format.unwrap().1 != c.geo.depth, "other depth").tag_if(
            c.format.unwrap().0 != c.geo.cs,
            "other sampling",
        ));
    }
    let mut got = read_all(&mut d, c.geo, wide, want.len() + 1)?;
    for r in &mut got {
        r.geo = Geo { w: r.planes[0].w, h: r.planes[0].h, ..r.geo };
    }
    compare(&got, &want).map_err(|e| {
        let order: Vec<Option<usize>> = got.iter().map(|g| want.iter().position(|w| w == g)).collect();
        format!("{e} (frames received: {order:?})")
    })?;
    for _ in 0..3 {
        if !read_all(&mut d, c.geo, wide, 0)?.is_empty() {
            return Err("a frame after the end".into());
        }
    }
    Ok(Info::new((exact || !c.lossless) && got.len() > 1)
        .tag_if(exact, "lossless")
        .tag_if(c.lossless && !exact, "codec changed samples or frames")
        .tag_if(c.recipe.bframes > 0, "frames may be reordered")
        .tag_if(c.recipe.audio != Audio::None, "audio interleaved")
        .tag_if(c.recipe.second, "second video stream")
        .tag_if(c.recipe.second && c.recipe.ahead, "second video stream ahead")
        .tag_if(c.recipe.times != Times::Regular, "irregular times")
        .tag_if(own.iter().any(|r| r.geo != c.geo), "size changes")
        .tag_if(c.geo.w % 16 != 0 || c.geo.h % 16 != 0, "cropped"))
}

fn coded(list: &'static [Codec], lossless: bool, frames: usize, max: usize) -> BoxedStrategy<Coded> {
    let total: u32 = list.iter().map(|c| c.weight).sum();
    let codec = (0..total).prop_map(move |mut k| {
        for (i, c) in list.iter().enumerate() {
            if k < c.weight {
                return i;
            }
            k -= c.weight;
        }
        unreachable!()
    });
    (
        codec,
        (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u8>()),
        (side(1, max), side(1, max)),
        prop::collection::vec(pats(), 1..=frames),
        (0u8..40, 0u8..5, 0u8..6, 0u8..8, any::<u32>()),
        (any::<bool>(), any::<bool>(), prop::sample::select(vec![(25u32, 1u32), (30, 1), (24, 1), (30000, 1001), (10, 1)])),
    )
        .prop_map(move |(k, (o, con, cs, dep, jp), (w, h), frames, (gop, bf, audio, misc, seed), (still, wide, rate))| {
            let c = &list[k];
            let pick = |n: usize, v: u16| v as usize % n;
            let cs = c.cs[pick(c.cs.len(), cs)];
            let (mut w, mut h) = (w.max(c.min), h.max(c.min));
            if c.name.starts_with("libx26") || c.name == "huffyuv" || seed % 3 == 0 {
                let (x, y) = cs.dec();
                w = (w + x) >> x << x;
                h = (h + y) >> y << y;
            }
            let opts = c.opts[pick(c.opts.len(), o)];
            if opts.iter().any(|o| o.1.contains("tff=1")) {
                (w, h) = ((w + 3) / 4 * 4, (h + 3) / 4 * 4);
            }
            let depth = c.depths[pick(c.depths.len(), dep)];
            let container = c.containers[pick(c.containers.len(), con)];
            Coded {
                recipe: Recipe {
                    codec: c.name.into(),
                    opts: opts.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
                    container: container.into(),
                    jpeg: depth == 8 && c.jpeg && jp % 3 == 0,
                    gop,
                    bframes: bf.min(c.bframes),
                    audio: if !matches!(container, "nut" | "matroska" | "avi" | "mov") {
                        Audio::None
                    } else {
                        match audio {
                            0 | 1 => Audio::First,
                            2 => Audio::Second,
                            _ => Audio::None,
                        }
                    },
                    second: misc >= 5 && matches!(container, "nut" | "matroska" | "mov" | "mp4" | "avi") && w > 16 && h > 16,
                    ahead: seed & 1024 != 0,
                    times: match misc {
                        0 => Times::Late((seed % 7) as u8),
                        1 => Times::Gaps(seed),
                        _ => Times::Regular,
                    },
                    rate,
                },
                geo: Geo { w, h, cs, depth },
                frames,
                still,
                wide,
                lossless,
                change: None,
                format: None,
                back: None,
                count: None,
            }
        })
        .boxed()
}

pub(super) fn any_coded(frames: usize, max: usize) -> BoxedStrategy<Coded> {
    prop_oneof![coded(LOSSLESS, true, frames, max), coded(LOSSY, false, frames, max)].boxed()
}

/// Many frames that are not tiny.
pub(super) fn long_coded() -> BoxedStrategy<Coded> {
    (coded(LOSSLESS, true, 4, 60), coded(LOSSY, false, 4, 60), any::<bool>(), (40usize..65, 40usize..65, 150usize..200))
        .prop_map(|(a, b, first, (w, h, n))| {
            let c = if first { a } else { b };
            Coded { geo: Geo { w: 4 * w, h: 4 * h, ..c.geo }, count: Some(n), ..c }
        })
        .boxed()
}

/// Codecs whose streams carry the size themselves.
const RESIZABLE: &[&str] = &["ljpeg", "mjpeg", "libvpx", "libvpx-vp9", "libx264"];

fn changing() -> BoxedStrategy<Coded> {
    (coded(LOSSLESS, true, 12, 60), coded(LOSSY, false, 12, 60), any::<bool>(), 1u8..8, (any::<u8>(), any::<u8>()))
        .prop_filter_map("not resizable", |(a, b, first, at, (w, h))| {
            let mut c = if first { a } else { b };
            if !RESIZABLE.contains(&c.recipe.codec.as_str()) {
                return None;
            }
            c.recipe.second = false;
            c.recipe.container = if c.recipe.codec == "libx264" { "nut" } else { "matroska" }.into();
            let (x, y) = if c.recipe.codec == "libx264" { c.geo.cs.dec() } else { (0, 0) };
            let (w, h) = (16 + w as usize % 50, 16 + h as usize % 50);
            c.change = Some((at, (w + x) >> x << x, (h + y) >> y << y));
            Some(c)
        })
        .boxed()
}

/// The format changes within the stream.
fn reformatted() -> BoxedStrategy<Coded> {
    let formats = prop::sample::select(vec![Cs::C420, Cs::C422, Cs::C444]);
    let back = prop::option::of(1u8..4);
    (changing(), formats, prop::sample::select(vec![8, 10, 12]), any::<bool>(), back)
        .prop_filter_map("same format", |(mut c, cs, depth, resize, back)| {
            let depth = if matches!(c.recipe.codec.as_str(), "libvpx-vp9" | "libx264") { depth } else { 8 };
            if (cs, depth) == (c.geo.cs, c.geo.depth) {
                return None;
            }
            c.recipe.jpeg = false;
            c.format = Some((cs, depth));
            let (x, y) = cs.dec();
            let (at, w, h) = c.change?;
            c.back = back.map(|n| at.saturating_add(n));
            let (w, h) = if resize { (w, h) } else { (c.geo.w, c.geo.h) };
            c.change = Some((at, (w + x) >> x << x, (h + y) >> y << y));
            Some(c)
        })
        .boxed()
}

pub fn c22(ctx: &mut Ctx) {
    ctx.assumptions.push(
        "The encoders and decoders of the installed libav are taken as given: an encoding that libav's \
         own documented decoding loop does not reproduce counts as trivial."
            .into(),
    );
    let n = ctx.cases(3_000, 60_000);
    ctx.leg(
        "lossless",
        "clips losslessly encoded in this process (11 encoders with generated options, GOP sizes, reordering, \
         containers, audio and further video streams, late or irregular times) against the encoded frames; \
         non-trivial if the codec kept all samples and there are two frames",
        n,
        || coded(LOSSLESS, true, 24, 80),
        check_coded,
    );
    let n = ctx.cases(200, 4_000);
    ctx.leg(
        "lossless-long",
        "the same with long clips",
        n,
        || coded(LOSSLESS, true, 150, 40),
        check_coded,
    );
    let n = ctx.cases(150, 3_000);
    ctx.leg(
        "lossless-large",
        "the same with large frames",
        n,
        || coded(LOSSLESS, true, 4, 500),
        check_coded,
    );
    let n = ctx.cases(24, 500);
    ctx.leg(
        "lossless-many",
        "the same with hundreds or thousands of small frames",
        n,
        || {
            (coded(LOSSLESS, true, 9, 24), prop_oneof![3 => 200usize..1_000, 2 => prop::sample::select(vec![255usize, 256, 257, 1_023, 1_025, 2_049, 4_097])])
                .prop_map(|(c, n)| Coded { count: Some(n), ..c })
                .boxed()
        },
        check_coded,
    );
    let n = ctx.cases(240, 4_000);
    ctx.leg(
        "lossless-long-sides",
        "the same with one side of up to 8200 samples",
        n,
        || {
            (coded(LOSSLESS, true, 4, 80), large_sides(Some(8_200)))
                .prop_map(|(mut c, (w, h))| {
                    let even = c.geo.w % 2 == 0 && c.geo.h % 2 == 0;
                    let min = if even { 16 } else { 1 };
                    let fit = |v: usize| if even { (v + 3) / 4 * 4 } else { v }.max(min);
                    (c.geo.w, c.geo.h) = (fit(w), fit(h));
                    c.recipe.second = false;
                    c
                })
                .boxed()
        },
        check_coded,
    );
    let n = ctx.cases(800, 15_000);
    ctx.leg(
        "size-change",
        "streams whose pictures change their size at some frame: every frame has its own size and samples \
         (own decoding loop); non-trivial if there are two frames",
        n,
        changing,
        check_coded,
    );
    let n = ctx.cases(1_500, 30_000);
    ctx.leg(
        "lossy",
        "the same with lossy codecs (hidden frames, packed and reordered frames, field coding), against an own \
         decoding loop over libav that follows its documentation; non-trivial if there are two frames",
        n,
        || coded(LOSSY, false, 24, 80),
        check_coded,
    );
}

// ------------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Harm {
    Truncate(u32),
    Overwrite { at: u32, with: Vec<u8> },
    Delete { at: u32, n: u16 },
    Repeat { at: u32, n: u16 },
    Zero { at: u32, n: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Harmed {
    /// `None`: the Y4M stream instead.
    coded: Coded,
    y4m: Option<Video>,
    harm: Vec<Harm>,
}

fn harm(b: &mut Vec<u8>, h: &Harm) {
    let at = |a: u32, n: usize| (a as u64 * (n as u64 + 1) >> 32) as usize;
    match h {
        Harm::Truncate(a) => {
            let k = at(*a, b.len());
            b.truncate(k);
        }
        Harm::Overwrite { at: a, with } => {
            let k = at(*a, b.len());
            for (x, w) in b[k..].iter_mut().zip(with) {
                *x = *w;
            }
        }
        Harm::Delete { at: a, n } => {
            let k = at(*a, b.len());
            let e = (k + *n as usize).min(b.len());
            b.drain(k..e);
        }
        Harm::Repeat { at: a, n } => {
            let k = at(*a, b.len());
            let e = (k + *n as usize).min(b.len());
            let part = b[k..e].to_vec();
            b.splice(k..k, part);
        }
        Harm::Zero { at: a, n } => {
            let k = at(*a, b.len());
            let e = (k + *n as usize).min(b.len());
            b[k..e].iter_mut().for_each(|x| *x = 0);
        }
    }
}

/// The process that reads a damaged file: 10 if it cannot be opened, 11 if it
/// was read to the end, 12 if it does not end.
pub fn read_damaged(path: &str, own: bool) -> i32 {
    ff::init();
    // SAFETY: a plain setting; the signal ends the process.
    unsafe { libc::alarm(25) };
    if own {
        return match ff::drain(Path::new(path)) {
            Ok(()) => 11,
            Err(_) => 10,
        };
    }
    let Ok(mut d) = FfmpegDecoder::new(path) else { return 10 };
    let mut n = 0;
    let read = |d: &mut FfmpegDecoder| {
        if d.get_bit_depth() > 8 {
            d.read_video_frame::<u16>().is_some()
        } else {
            d.read_video_frame::<u8>().is_some()
        }
    };
    while read(&mut d) {
        n += 1;
        if n > 20_000 {
            return 12;
        }
    }
    for _ in 0..3 {
        if read(&mut d) {
            return 13;
        }
    }
    11
}

fn check_harmed(c: &Harmed) -> CaseResult {
    let file = Scratch::new(&format!(".{}", c.coded.recipe.container));
    let mut bytes = match &c.y4m {
        Some(v) => v.bytes(),
        None => {
            if encode(&c.coded, &file.0).is_err() {
                return Ok(Info::new(false).tag("cannot be encoded"));
            }
            std::fs::read(&file.0).expect("scratch file")
        }
    };
    let intact = bytes.clone();
    for h in &c.harm {
        harm(&mut bytes, h);
    }
    std::fs::write(&file.0, &bytes).expect("scratch file");
    let run = |how: &str| {
        Command::new(std::env::current_exe().expect("own path"))
            .args([how, file.0.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .output()
            .expect("own process")
    };
    let out = run("read-damaged");
    let text = String::from_utf8_lossy(&out.stderr).into_owned();
    let bad = match out.status.code() {
        Some(10) => return Ok(Info::new(bytes != intact).tag("not opened")),
        Some(11) => return Ok(Info::new(bytes != intact).tag("read to the end").tag_if(c.y4m.is_some(), "Y4M")),
        Some(12) => "reading does not end".to_string(),
        Some(13) => "a frame after the end".to_string(),
        Some(101) => format!("panic: {}", text.lines().take(3).collect::<Vec<_>>().join(" ")),
        _ => {
            use std::os::unix::process::ExitStatusExt;
            match out.status.signal() {
                Some(libc::SIGALRM) => "reading does not end".to_string(),
                s => format!("ended by signal {s:?}"),
            }
        }
    };
    // Is it libav itself?
    let own = run("drain-damaged");
    if !matches!(own.status.code(), Some(10 | 11)) {
        return Ok(Info::new(false).tag("libav itself does not get through"));
    }
    Err(format!("{bad} ({} bytes)", bytes.len()))
}

fn harmed() -> BoxedStrategy<Harmed> {
    let h = prop_oneof![
        3 => any::<u32>().prop_map(Harm::Truncate),
        3 => (any::<u32>(), prop::collection::vec(any::<u8>(), 1..10)).prop_map(|(at, with)| Harm::Overwrite { at, with }),
        2 => (any::<u32>(), 1u16..400).prop_map(|(at, n)| Harm::Delete { at, n }),
        1 => (any::<u32>(), 1u16..2000).prop_map(|(at, n)| Harm::Repeat { at, n }),
        1 => (any::<u32>(), 1u16..400).prop_map(|(at, n)| Harm::Zero { at, n }),
    ];
    (
        prop_oneof![2 => coded(LOSSLESS, true, 8, 50), 2 => coded(LOSSY, false, 8, 50)],
        prop_oneof![4 => Just(None), 1 => ff_video((1, 40), 4).prop_map(Some)],
        prop::collection::vec(h, 1..5),
    )
        .prop_map(|(mut coded, y4m, harm)| {
            if y4m.is_some() {
                coded.recipe.container = "y4m".into();
            }
            Harmed { coded, y4m, harm }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Refused {
    Missing,
    Directory,
    Empty,
    Noise(u32),
    /// Sound only.
    Sound(u16),
    /// A Y4M stream in a format the decoder does not support.
    Format(String),
}

fn check_refused(c: &Refused) -> CaseResult {
    ff::init();
    let file = match c {
        Refused::Missing => Scratch::new(".mkv"),
        Refused::Directory => Scratch::dir(),
        Refused::Empty => Scratch::with(".mkv", b""),
        Refused::Noise(s) => {
            let d: Vec<u8> = (0..4000).map(|i| hash2(*s, i, 1) as u8 | 0x80).collect();
            Scratch::with(".bin", &d)
        }
        Refused::Sound(n) => {
            let n = *n as u32 * 2 + 2;
            let mut d = b"RIFF".to_vec();
            d.extend((36 + n).to_le_bytes());
            d.extend(b"WAVEfmt \x10\0\0\0\x01\0\x01\0\x40\x1f\0\0\x80\x3e\0\0\x02\0\x10\0data");
            d.extend(n.to_le_bytes());
            d.extend((0..n).map(|i| hash2(3, i, 1) as u8));
            Scratch::with(".wav", &d)
        }
        Refused::Format(f) => {
            let mut d = format!("YUV4MPEG2 W16 H16 F25:1 C{f}\nFRAME\n").into_bytes();
            d.extend(std::iter::repeat(90).take(16 * 16 * 8));
            Scratch::with(".y4m", &d)
        }
    };
    match guarded(|| FfmpegDecoder::new(&file.0).map(|d| d.get_video_details())) {
        Err(e) => Err(format!("opening: {e}")),
        Ok(Ok(d)) => Err(format!("{c:?} is accepted as {d:?}")),
        Ok(Err(_)) => Ok(Info::new(true)),
    }
}

pub fn c24(ctx: &mut Ctx) {
    ctx.assumptions.push(
        "A file on which libav's own loop crashes or does not end says nothing about the decoder and counts as trivial.".into(),
    );
    let n = ctx.cases(4_000, 80_000);
    ctx.leg(
        "damage",
        "encoded and Y4M files that are truncated, overwritten, shortened, repeated or zeroed in places, read in \
         a process of its own: no panic, and the frames come to an end; non-trivial if the bytes differ",
        n,
        harmed,
        check_harmed,
    );
    let n = ctx.cases(600, 10_000);
    ctx.leg(
        "format-change",
        "streams whose pixel format changes at some frame: the frames before that are intact, and nothing panics \
         afterwards; non-trivial if libav reads frames before the change and there are more after it",
        n,
        reformatted,
        check_coded,
    );
    let n = ctx.cases(1_000, 10_000);
    ctx.leg(
        "refused",
        "missing, empty and non-video files, sound, unsupported pixel formats: an error; always non-trivial",
        n,
        || {
            prop_oneof![
                1 => Just(Refused::Missing),
                1 => Just(Refused::Directory),
                1 => Just(Refused::Empty),
                2 => any::<u32>().prop_map(Refused::Noise),
                2 => any::<u16>().prop_map(Refused::Sound),
                3 => prop::sample::select(vec!["mono", "mono9", "mono10", "mono12", "mono16", "411", "420p9", "422p9", "444p9", "420p14", "422p14", "444p14", "420p16", "422p16", "444p16", "444alpha"])
                    .prop_map(|f| Refused::Format(f.into())),
            ]
            .boxed()
        },
        check_refused,
    );
}

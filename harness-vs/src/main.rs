//! C23: the VapourSynth decoder over a stand-in for VapourSynth.

#[path = "../../harness/src/pic.rs"]
#[macro_use]
#[allow(dead_code, unused_macros)]
mod pic;
#[path = "../../harness/src/run.rs"]
#[allow(dead_code)]
mod run;
mod standin;

use av_metrics::video::decode::{Decoder, Rational, VideoDetails};
use av_metrics::video::psnr::calculate_video_psnr;
use av_metrics::video::{ChromaSamplePosition, Frame, Pixel};
use av_metrics_decoders::{VapoursynthDecoder, VapoursynthDecoderPlugin};
use pic::*;
use proptest::prelude::*;
use run::*;
use serde::{Deserialize, Serialize};
use standin::Clip;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vapoursynth_sys::VSColorFamily as Family;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Video {
    geo: Geo,
    frames: Vec<[Pat; 3]>,
    /// Multiples of 32 bytes after each row.
    gap: [u8; 3],
    fps: (i64, i64),
    alpha: bool,
    /// 0: YUV, 1: YCoCg, 2: RGB (if the planes have the same size).
    #[serde(default)]
    family: u8,
    /// The patterns are repeated up to this number of frames.
    #[serde(default)]
    count: Option<usize>,
}

impl Video {
    fn len(&self) -> usize {
        self.count.unwrap_or(self.frames.len())
    }
    fn raws(&self) -> Vec<Raw> {
        let mark = |i: usize| ((i * 12347 + 300) % 65536) as u16;
        (0..self.len())
            .zip(self.frames.iter().cycle())
            .map(|(i, p)| {
                let edits: Vec<Edit> = (0..3).map(|q| Edit { plane: q, x: 0, y: 0, v: mark(i) }).collect();
                Raw::render(self.geo, p, &edits)
            })
            .collect()
    }
    fn clip(&self) -> Clip {
        let (x, y) = self.geo.cs.dec();
        Clip {
            family: match (self.geo.cs, self.family) {
                (Cs::C400, _) => Family::cmGray,
                (_, 1) => Family::cmYCoCg,
                (Cs::C444, 2) => Family::cmRGB,
                _ => Family::cmYUV,
            } as i32,
            float: false,
            bits: self.geo.depth as i32,
            sub: (x as i32, y as i32),
            variable_format: false,
            size: (self.geo.w, self.geo.h),
            fps: self.fps,
            frames: self.raws(),
            gap: self.gap.map(|g| g as usize * 32),
            output: 0,
            alpha: self.alpha,
            fails: false,
            broken: None,
        }
    }
}

fn video(max: usize, frames: usize) -> BoxedStrategy<Video> {
    let fps = prop_oneof![
        Just((25, 1)),
        Just((30000, 1001)),
        Just((24000, 1001)),
        (1i64..100_000, 1i64..2_000),
        (1i64..1 << 40, 1i64..1 << 40),
        (1i64..i64::MAX, 1i64..i64::MAX),
    ];
    (
        (side(1, max), side(1, max), cs(true), 8usize..=16),
        prop::collection::vec(pats(), 1..=frames),
        prop::array::uniform3(0u8..4),
        fps,
        (any::<bool>(), prop_oneof![3 => Just(0u8), 2 => 1u8..3]),
    )
        .prop_map(|((w, h, cs, depth), frames, gap, fps, (alpha, family))| {
            // VapourSynth has no clips whose sides are no multiples of the subsampling.
            let (x, y) = cs.dec();
            let geo = Geo { w: (w + x) >> x << x, h: (h + y) >> y << y, cs, depth };
            Video { geo, frames, gap, fps, alpha, family, count: None }
        })
        .boxed()
}

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("avp-vs-{}", std::process::id()))
}

/// A script or file that is removed in the end.
struct Script {
    dir: PathBuf,
    path: PathBuf,
    text: String,
}

impl Script {
    fn named(c: Clip, name: &OsStr) -> Script {
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = scratch().join(N.fetch_add(1, Ordering::SeqCst).to_string());
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let path = dir.join(name);
        std::fs::create_dir_all(path.parent().unwrap()).expect("scratch directory");
        let text = standin::register(c);
        std::fs::write(&path, &text).expect("scratch file");
        Script { dir, path, text }
    }
    /// A script that imports another one beside it.
    fn importing(c: Clip, name: &OsStr) -> Script {
        let mut s = Script::named(c, OsStr::new("beside/clip.py"));
        let path = s.dir.join("beside").join(name);
        std::fs::write(&path, "import clip.py").expect("scratch file");
        s.path = path;
        s
    }
    fn new(c: Clip) -> Script {
        Script::named(c, OsStr::new("clip.vpy"))
    }
    fn open(&self) -> Result<VapoursynthDecoder, String> {
        guarded(|| VapoursynthDecoder::new_from_script(&self.path))
            .map_err(|e| format!("opening: {e}"))?
            .map_err(|e| format!("the script is refused: {e}"))
    }
}

impl Drop for Script {
    fn drop(&mut self) {
        standin::forget(&self.text);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn read<T: Pixel>(d: &mut VapoursynthDecoder, geo: Geo) -> Result<Option<Raw>, String> {
    Ok(guarded(|| d.read_video_frame::<T>())?.map(|f| Raw::from_frame(geo, &f)))
}

fn matches(d: &mut VapoursynthDecoder, v: &Video) -> Result<(), String> {
    let g = v.geo;
    let det = guarded(|| d.get_video_details())?;
    let (num, den) = (det.time_base.num, det.time_base.den);
    let got = (det.width, det.height, det.bit_depth, det.chroma_sampling);
    let want = (g.w, g.h, g.depth, g.cs.lib());
    if got != want {
        return Err(format!("details {got:?} instead of {want:?}"));
    }
    // The time base is one frame.
    if num as u128 * v.fps.0 as u128 != den as u128 * v.fps.1 as u128 || den == 0 {
        return Err(format!("time base {num}/{den} at {}/{} frames a second", v.fps.0, v.fps.1));
    }
    if guarded(|| d.get_bit_depth())? != g.depth {
        return Err("get_bit_depth differs".into());
    }
    let count = guarded(|| d.get_frame_count())?.map_err(|e| format!("frame count: {e}"))?;
    if count != v.len() {
        return Err(format!("{count} frames announced instead of {}", v.len()));
    }
    let mut next = |i: usize| {
        let r = if g.depth > 8 { read::<u16>(d, g) } else { read::<u8>(d, g) };
        r.map_err(|e| format!("frame {i}: {e}"))
    };
    for (i, want) in v.raws().iter().enumerate() {
        let got = next(i)?.ok_or_else(|| format!("frame {i} of {count} is missing"))?;
        if let Some(e) = want.first_diff(&got) {
            return Err(format!("frame {i}: {e}"));
        }
    }
    for _ in 0..3 {
        if next(count)?.is_some() {
            return Err("a frame after the end".into());
        }
    }
    Ok(())
}

fn check_frames(v: &Video) -> CaseResult {
    let s = Script::new(v.clip());
    let mut d = s.open()?;
    matches(&mut d, v)?;
    Ok(Info::new(v.len() > 1)
        .tag_if(v.geo.depth > 8, "two-byte samples")
        .tag_if(v.geo.cs == Cs::C400, "gray")
        .tag_if(v.alpha, "alpha output")
        .tag_if(v.family > 0 && v.geo.cs != Cs::C400, "YCoCg or RGB")
        .tag_if(v.geo.w % 32 != 0 || v.gap[0] > 0, "rows with padding"))
}

// ------------------------------------------------------------- scripts

/// A script of any name, that may import another one; or one that cannot
/// produce some frame.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Odd {
    video: Video,
    name: String,
    import: bool,
    broken: Option<(u8, bool)>,
}

fn check_odd(c: &Odd) -> CaseResult {
    let mut clip = c.video.clip();
    clip.broken = c.broken.map(|(at, on)| (at as usize, on));
    let name = OsStr::from_bytes(c.name.as_bytes());
    let s = if c.import { Script::importing(clip, name) } else { Script::named(clip, name) };
    let mut d = s.open().map_err(|e| format!("{:?}: {e}", c.name))?;
    let Some((at, on)) = c.broken.filter(|(at, _)| (*at as usize) < c.video.len()) else {
        matches(&mut d, &c.video)?;
        return Ok(Info::new(true).tag_if(c.import, "import"));
    };
    let raws = c.video.raws();
    for i in 0..raws.len() + 3 {
        let g = c.video.geo;
        let got = if g.depth > 8 { read::<u16>(&mut d, g) } else { read::<u8>(&mut d, g) };
        match got.map_err(|e| format!("read {i}, frame {at} fails: {e}"))? {
            Some(f) if i < at as usize => {
                if let Some(e) = raws[i].first_diff(&f) {
                    return Err(format!("frame {i}: {e}"));
                }
            }
            Some(_) => return Err(format!("read {i} returns a frame though frame {at} fails")),
            None if i < at as usize => return Err(format!("frame {i} is missing, only frame {at} fails")),
            None => {}
        }
    }
    Ok(Info::new(true).tag("a frame fails").tag_if(!on, "later frames do not"))
}

// ---------------------------------------------------------------- order

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeks {
    video: Video,
    /// Frame numbers to seek to; `None` reads the next frame.
    ops: Vec<Option<u8>>,
}

fn check_seeks(c: &Seeks) -> CaseResult {
    fn seek<T: Pixel>(d: &mut VapoursynthDecoder, n: usize, geo: Geo) -> Result<Option<Raw>, String> {
        Ok(guarded(|| d.read_specific_frame::<T>(n))?.map(|f| Raw::from_frame(geo, &f)))
    }
    let v = &c.video;
    let s = Script::new(v.clip());
    let mut d = s.open()?;
    let raws = v.raws();
    let mut pos = 0;
    let mut sought = false;
    for (k, op) in c.ops.iter().enumerate() {
        let wide = v.geo.depth > 8;
        let (got, want) = match op {
            None => {
                let got = if wide { read::<u16>(&mut d, v.geo)? } else { read::<u8>(&mut d, v.geo)? };
                let want = raws.get(pos);
                pos = (pos + 1).min(raws.len());
                (got, want)
            }
            Some(n) => {
                // Counted from here.
                let n = *n as usize;
                let got = if wide { seek::<u16>(&mut d, n, v.geo)? } else { seek::<u8>(&mut d, n, v.geo)? };
                let want = raws.get(pos + n);
                sought |= want.is_some();
                pos = (pos + n + 1).min(raws.len());
                (got, want)
            }
        };
        match (got, want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                if let Some(e) = w.first_diff(&g) {
                    return Err(format!("operation {k}: {e}"));
                }
            }
            (g, _) => return Err(format!("operation {k}: {}", if g.is_some() { "a frame too many" } else { "no frame" })),
        }
    }
    Ok(Info::new(sought))
}

// --------------------------------------------------------------- scores

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: Video,
    diff: Diff,
    gap: [u8; 3],
}

fn check_scores(c: &Two) -> CaseResult {
    let mut b = c.a.clip();
    b.frames = b.frames.iter().map(|r| r.derive(&c.diff)).collect();
    b.gap = c.gap.map(|g| g as usize * 32);
    let mem = |frames: Vec<Raw>| Mem { geo: c.a.geo, frames, pos: 0 };
    let (mut ma, mut mb) = (mem(c.a.raws()), mem(b.frames.clone()));
    let differs = ma.frames != mb.frames;
    let (sa, sb) = (Script::new(c.a.clip()), Script::new(b));
    let (mut da, mut db) = (sa.open()?, sb.open()?);
    let got = guarded(|| calculate_video_psnr(&mut da, &mut db, None, |_| ()))?.map_err(|e| format!("{e}"))?;
    let want = calculate_video_psnr(&mut ma, &mut mb, None, |_| ()).map_err(|e| format!("{e}"))?;
    let (got, want) = ([got.y, got.u, got.v, got.avg], [want.y, want.u, want.v, want.avg]);
    if got.iter().zip(&want).any(|(g, w)| (g - w).abs() > 1e-6) {
        return Err(format!("PSNR {got:?} instead of {want:?}"));
    }
    Ok(Info::new(differs && c.a.frames.len() > 1))
}

/// The same frames without VapourSynth.
struct Mem {
    geo: Geo,
    frames: Vec<Raw>,
    pos: usize,
}

impl Decoder for Mem {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        let f = self.frames.get(self.pos)?.frame(&Layout::default());
        self.pos += 1;
        Some(f)
    }
    fn get_bit_depth(&self) -> usize {
        self.geo.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.geo.w,
            height: self.geo.h,
            bit_depth: self.geo.depth,
            chroma_sampling: self.geo.cs.lib(),
            chroma_sample_position: ChromaSamplePosition::Unknown,
            time_base: Rational::new(1, 25),
            luma_padding: 0,
        }
    }
}

// -------------------------------------------------------------- refused

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Why {
    Float,
    Bits(u8),
    Sub(u8, u8),
    Compat,
    VariableFormat,
    VariableSize,
    VariableRate,
    OtherOutput(u8),
    Fails,
    Missing,
    Directory,
}

fn check_refused(c: &(Video, Why, bool)) -> CaseResult {
    let (v, why, from_video) = c;
    let mut clip = v.clip();
    match *why {
        Why::Float => {
            clip.float = true;
            clip.bits = 32;
        }
        Why::Bits(n) => clip.bits = n as i32,
        Why::Sub(x, y) => {
            clip.family = Family::cmYUV as i32;
            clip.sub = (x as i32, y as i32);
        }
        Why::Compat => {
            clip.family = Family::cmCompat as i32;
            clip.bits = 16;
        }
        Why::VariableFormat => clip.variable_format = true,
        Why::VariableSize => clip.size = (0, 0),
        Why::VariableRate => clip.fps = (0, 0),
        Why::OtherOutput(n) => clip.output = n as i32,
        Why::Fails => clip.fails = true,
        Why::Missing | Why::Directory => {}
    }
    let s = Script::new(clip);
    let path = match why {
        Why::Missing => s.dir.join("missing"),
        Why::Directory => s.dir.clone(),
        _ => s.path.clone(),
    };
    // Another output is a matter of scripts.
    let from_video = *from_video && !matches!(why, Why::OtherOutput(_));
    let open = || {
        if from_video {
            VapoursynthDecoder::new_from_video(&path)
        } else {
            VapoursynthDecoder::new_from_script(&path)
        }
        .map(|_| ())
    };
    match guarded(open) {
        Err(e) => Err(format!("{why:?}: opening: {e}")),
        Ok(Ok(())) => Err(format!("{why:?} is accepted")),
        Ok(Err(_)) => Ok(Info::new(true).tag_if(from_video, "video file")),
    }
}

// --------------------------------------------------------- video files

#[derive(Clone, Debug, Serialize, Deserialize)]
struct File {
    video: Video,
    name: String,
    plugin: u8,
    /// The directory of the file.
    #[serde(default)]
    dir: Option<String>,
}

fn name() -> BoxedStrategy<String> {
    let c = prop::sample::select(vec![
        'a', 'b', '.', '-', ' ', '"', '\'', '\\', '#', '{', '}', '%', '(', ')', ',', 'n', 'x', 'u', 'N', '0', '\n', '\t', '\r',
        'é', '視', '🎞', '\u{feff}', '$', '&', ';',
    ]);
    prop::collection::vec(c, 1..12)
        .prop_map(|v| v.into_iter().collect::<String>())
        .prop_filter("no file name", |s| s != "." && s != "..")
        .boxed()
}

fn check_file(c: &File) -> CaseResult {
    let name = match &c.dir {
        Some(d) => format!("{d}/{}", c.name),
        None => c.name.clone(),
    };
    let s = Script::named(c.video.clip(), OsStr::from_bytes(name.as_bytes()));
    let open = |p: &Path| match c.plugin {
        0 => VapoursynthDecoder::new_from_video(p),
        1 => VapoursynthDecoder::new_from_video_with_decoder(p, VapoursynthDecoderPlugin::LSmash),
        _ => VapoursynthDecoder::new_from_video_with_decoder(p, VapoursynthDecoderPlugin::BestSource),
    };
    let mut d = guarded(|| open(&s.path))
        .map_err(|e| format!("opening {:?}: {e}", c.name))?
        .map_err(|e| format!("{:?} is refused: {e}", c.name))?;
    let plugin = match c.plugin {
        0 => VapoursynthDecoderPlugin::default(),
        1 => VapoursynthDecoderPlugin::LSmash,
        _ => VapoursynthDecoderPlugin::BestSource,
    };
    let path = s.path.canonicalize().expect("scratch file");
    let function = standin::OPENED.lock().unwrap().as_mut().and_then(|m| m.remove(&path));
    match (plugin, function.as_deref()) {
        (VapoursynthDecoderPlugin::LSmash, Some("lsmas.LWLibavSource" | "lsmas.LibavSMASHSource")) => {}
        (VapoursynthDecoderPlugin::BestSource, Some("bs.VideoSource")) => {}
        (p, f) => return Err(format!("{p:?} was chosen, but {f:?} opened the file")),
    }
    matches(&mut d, &c.video)?;
    Ok(Info::new(c.name.contains(['"', '\\', '\n', '\r', '\''])))
}

fn c23(ctx: &mut Ctx) {
    ctx.assumptions.push(
        "VapourSynth itself is not installed: the decoder is linked against a stand-in for the functions of its C \
         interface that it uses, and Python runs the scripts it writes with a stand-in module."
            .into(),
    );
    let n = ctx.cases(60_000, 1_500_000);
    ctx.leg(
        "frames",
        "scripts with generated formats (gray, 4:2:0, 4:2:2, 4:4:4, 8 to 16 bits), sizes, row padding, rates and \
         frames: details, frame count, every sample, the end; non-trivial with two frames",
        n,
        || video(70, 6),
        check_frames,
    );
    let n = ctx.cases(1_500, 40_000);
    ctx.leg("frames-large", "the same with large frames", n, || video(700, 3), check_frames);
    let n = ctx.cases(100, 2_000);
    ctx.leg(
        "frames-far",
        "the same with one side of up to 131073 samples",
        n,
        || {
            (video(4, 2), geo_far(1, None, Just(8).boxed()))
                .prop_map(|(mut v, g)| {
                    let (x, y) = v.geo.cs.dec();
                    (v.geo.w, v.geo.h) = ((g.w + x) >> x << x, (g.h + y) >> y << y);
                    v
                })
                .boxed()
        },
        check_frames,
    );
    let n = ctx.cases(24, 400);
    ctx.leg(
        "frames-many",
        "the same with hundreds to 66000 frames",
        n,
        || {
            (video(3, 7), prop_oneof![200usize..5_000, 65_500usize..66_000])
                .prop_map(|(v, n)| Video { count: Some(n), ..v })
                .boxed()
        },
        check_frames,
    );
    let n = ctx.cases(8_000, 200_000);
    ctx.leg(
        "scripts",
        "scripts with generated names, scripts that import another one beside them, scripts that cannot produce \
         some frame (it ends the video); always non-trivial",
        n,
        || {
            (video(20, 6), name(), any::<bool>(), prop::option::of((0u8..8, any::<bool>())))
                .prop_map(|(video, name, import, broken)| Odd { video, name: format!("{name}.vpy"), import, broken })
                .boxed()
        },
        check_odd,
    );
    let n = ctx.cases(20_000, 500_000);
    ctx.leg(
        "seeks",
        "reads and seeks in generated order; non-trivial if a seek finds a frame",
        n,
        || {
            let op = prop_oneof![Just(None), (0u8..6).prop_map(Some)];
            (video(20, 12), prop::collection::vec(op, 1..8)).prop_map(|(video, ops)| Seeks { video, ops }).boxed()
        },
        check_seeks,
    );
    let n = ctx.cases(5_000, 100_000);
    ctx.leg(
        "scores",
        "PSNR of two scripts with different row padding against the frames' scores; non-trivial with two differing frames",
        n,
        || {
            (video(40, 5), diff(), prop::array::uniform3(0u8..4))
                .prop_map(|(a, diff, gap)| Two { a, diff, gap })
                .boxed()
        },
        check_scores,
    );
    let n = ctx.cases(5_000, 60_000);
    ctx.leg(
        "refused",
        "scripts and files that fail, set another output or have a format that the decoder cannot represent: an \
         error; always non-trivial",
        n,
        || {
            let why = prop_oneof![
                Just(Why::Float),
                (17u8..=32).prop_map(Why::Bits),
                prop::sample::select(vec![(0, 1), (2, 0), (2, 2), (0, 2), (1, 2), (2, 1), (3, 0)]).prop_map(|(x, y)| Why::Sub(x, y)),
                Just(Why::Compat),
                Just(Why::VariableFormat),
                Just(Why::VariableSize),
                Just(Why::VariableRate),
                (1u8..9).prop_map(Why::OtherOutput),
                Just(Why::Fails),
                Just(Why::Missing),
                Just(Why::Directory),
            ];
            (video(20, 2), why, prop::bool::weighted(0.3)).boxed()
        },
        check_refused,
    );
    let n = ctx.cases(2_000, 40_000);
    ctx.leg(
        "video-files",
        "video files with generated names through both plugins (the generated script is run with Python); \
         non-trivial if the name has to be escaped",
        n,
        || {
            (video(20, 3), name(), 0u8..3, prop::option::weighted(0.3, name()))
                .prop_map(|(video, name, plugin, dir)| File { video, name, plugin, dir })
                .boxed()
        },
        check_file,
    );
    if ctx.replay.is_none() && standin::LIVE.load(Ordering::SeqCst) != 0 {
        ctx.assumptions.push("Some frames or nodes were not given back.".into());
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let exe = std::env::current_exe().expect("own path");
    // harness-vs/py, seen from target-vs/debug or from the sources.
    let dir = std::env::var_os("AVP_VS_PY").map(PathBuf::from).unwrap_or_else(|| {
        exe.ancestors().map(|a| a.join("harness-vs/py")).find(|p| p.exists()).expect("harness-vs/py")
    });
    standin::PYTHON_DIR.set(dir).unwrap();
    drive(&args, |id| (id == "C23").then_some(("C23", c23 as Check)), || {
        let _ = std::fs::remove_dir_all(scratch());
    });
}

//! C25: what is held in memory does not grow with the number of frames.

use super::cli::{pty, tool};
use super::clip::{fit, metric, run, Clips};
use super::decode::open;
use super::video::{encode, long_coded, open_ff, Coded};
use crate::metric::*;
use crate::pic::*;
use crate::run::*;
use crate::y4m::*;
use av_metrics::video::decode::{Decoder, Rational, VideoDetails};
use av_metrics::video::{ChromaSamplePosition, Frame, Pixel};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// The bytes this process has allocated and not released, by Rust or C code.
fn in_use() -> usize {
    // SAFETY: only reads the allocator's counters.
    let m = unsafe { libc::mallinfo2() };
    m.uordblks + m.hblkhd
}

fn frame_bytes(g: Geo) -> usize {
    let (cw, ch) = g.dims(1);
    (g.w * g.h + 2 * cw * ch) * if g.depth > 8 { 2 } else { 1 }
}

/// A clip that is long but needs no memory.
struct Stream {
    raw: Arc<Raw>,
    frames: usize,
    pos: usize,
    /// This frame is two samples wider, or the read panics.
    fault: Option<(usize, bool)>,
    peak: Arc<AtomicUsize>,
}

impl Decoder for Stream {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        self.peak.fetch_max(in_use(), Ordering::SeqCst);
        let n = self.pos;
        if n >= self.frames {
            return None;
        }
        self.pos += 1;
        match self.fault {
            Some((at, true)) if at == n => std::panic::panic_any(INTENTIONAL),
            Some((at, false)) if at == n => {
                let g = Geo { w: self.raw.geo.w + 2, ..self.raw.geo };
                Some(Raw::render(g, &[Pat::Flat(9); 3], &[]).frame(&Layout::default()))
            }
            _ => Some(self.raw.frame(&Layout::default())),
        }
    }
    fn get_bit_depth(&self) -> usize {
        self.raw.geo.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.raw.geo.w,
            height: self.raw.geo.h,
            bit_depth: self.raw.geo.depth,
            chroma_sampling: self.raw.geo.cs.lib(),
            chroma_sample_position: ChromaSamplePosition::Unknown,
            time_base: Rational::new(1, 30),
            luma_padding: 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
    Score,
    Limit,
    /// A frame of another size.
    Mismatch,
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Held {
    metric: Metric,
    geo: Geo,
    pats: [Pat; 3],
    diff: Diff,
    pool: usize,
    short: usize,
    long: usize,
    end: End,
}

fn sizes(cs: BoxedStrategy<Cs>, depth: BoxedStrategy<usize>) -> BoxedStrategy<Geo> {
    (100usize..360, 100usize..360, cs, depth)
        .prop_map(|(w, h, cs, depth)| Geo { w: w.max(30_000 / h), h, cs, depth })
        .boxed()
}

fn held(factor: usize) -> BoxedStrategy<Held> {
    (
        metric(),
        sizes(cs(true), depth_any()),
        pats(),
        diff(),
        1usize..5,
        20usize..30,
        prop_oneof![3 => Just(End::Score), 1 => Just(End::Limit), 1 => Just(End::Mismatch), 1 => Just(End::Panic)],
    )
        .prop_map(move |(m, geo, p, d, pool, short, end)| {
            let clips = Clips { geo, a: vec![p], b: vec![d] };
            let (metric, mut c) = fit(m, clips);
            Held {
                metric,
                geo: c.geo,
                pats: c.a.remove(0),
                diff: c.b.remove(0),
                pool,
                short,
                long: short * factor,
                end,
            }
        })
        .boxed()
}

fn check_held(c: &Held) -> CaseResult {
    let a = Arc::new(Raw::render(c.geo, &c.pats, &[]));
    let b = Arc::new(a.derive(&c.diff));
    let pair = 2 * frame_bytes(c.geo);
    // What the comparisons themselves need, for every worker.
    let work = c.pool * c.geo.w * c.geo.h * 20;
    let peak_of = |frames: usize| -> Result<usize, String> {
        let before = in_use();
        let peak = Arc::new(AtomicUsize::new(before));
        let stream = |raw: &Arc<Raw>, fault| Stream {
            raw: raw.clone(),
            frames: if c.end == End::Limit { usize::MAX } else { frames },
            pos: 0,
            fault,
            peak: peak.clone(),
        };
        let fault = match c.end {
            End::Mismatch => Some((frames - 1, false)),
            End::Panic => Some((frames - 1, true)),
            _ => None,
        };
        let limit = (c.end == End::Limit).then_some(frames);
        let (r, d1, _) = run(c.metric, c.pool, stream(&a, None), stream(&b, fault), limit, |_| ())?;
        match (c.end, r) {
            (End::Score | End::Limit, Err(e)) => return Err(format!("{:?}: {e}", c.metric)),
            (End::Mismatch | End::Panic, Ok(s)) => return Err(format!("{:?} is {s:?}", c.metric)),
            _ => {}
        }
        if d1.pos != frames {
            return Err(format!("{} of {frames} frames were read", d1.pos));
        }
        let after = in_use();
        if after > before + 4 * pair + work + (1 << 20) {
            return Err(format!(
                "{:?} of {frames} frames of {pair} bytes a pair leaves {} bytes in memory",
                c.metric,
                after - before
            ));
        }
        Ok(peak.load(Ordering::SeqCst).saturating_sub(before))
    };
    // Pools and other buffers of the library are there from the first time on.
    peak_of(3)?;
    let short = peak_of(c.short)?;
    let long = peak_of(c.long)?;
    if long > short + 15 * pair + work + (1 << 20) {
        return Err(format!(
            "{:?} holds up to {short} bytes for {} frames and {long} for {}, of {pair} bytes a pair",
            c.metric, c.short, c.long
        ));
    }
    Ok(Info::new(true)
        .tag_if(c.end == End::Mismatch, "ends with an error")
        .tag_if(c.end == End::Panic, "the decoder fails")
        .tag_if(c.end == End::Limit, "limited"))
}

// --------------------------------------------------------------- decoders

/// A Y4M file of repeated frames, written piece by piece.
fn write_y4m(path: &Path, v: &Video, frames: usize) {
    let one = v.bytes();
    let head = v.header.text().len();
    let mut out = std::io::BufWriter::new(std::fs::File::create(path).expect("scratch file"));
    out.write_all(&one[..head]).expect("scratch file");
    for _ in 0..frames {
        out.write_all(&one[head..]).expect("scratch file");
    }
    out.flush().expect("scratch file");
}

fn still(spaces: BoxedStrategy<Space>) -> BoxedStrategy<Video> {
    (video(spaces, (100, 100), 1), sizes(Just(Cs::C420).boxed(), Just(8).boxed()), pats())
        .prop_map(|(mut v, g, p)| {
            (v.header.w, v.header.h) = (g.w, g.h);
            v.header.rate = Some((25, 1));
            v.header.extra.clear();
            v.frames = vec![(p, None)];
            v
        })
        .boxed()
}

/// Reads all frames, dropping each, or seeks over them; the most bytes held.
fn read_through<D: Decoder>(
    open: &dyn Fn() -> Result<D, String>,
    wide: bool,
    frames: usize,
    seek: Option<usize>,
    unit: usize,
) -> Result<usize, String> {
    fn go<T: Pixel, D: Decoder>(d: &mut D, before: usize, seek: Option<usize>) -> (usize, usize) {
        let (mut n, mut peak) = (0, before);
        loop {
            let f = match seek {
                Some(k) => d.read_specific_frame::<T>(k),
                None => d.read_video_frame::<T>(),
            };
            peak = peak.max(in_use());
            if f.is_none() {
                return (n, peak - before);
            }
            n += 1 + seek.unwrap_or(0);
        }
    }
    let before = in_use();
    let mut d = open()?;
    let (n, peak) = guarded(|| {
        if wide {
            go::<u16, D>(&mut d, before, seek)
        } else {
            go::<u8, D>(&mut d, before, seek)
        }
    })?;
    let want = frames / (1 + seek.unwrap_or(0)) * (1 + seek.unwrap_or(0));
    if n != want {
        return Err(format!("{n} frames were read instead of {want} of {frames}"));
    }
    drop(d);
    let after = in_use();
    if after > before + 4 * unit + (2 << 20) {
        return Err(format!("{} bytes are left in memory after {frames} frames of {unit}", after - before));
    }
    Ok(peak)
}

fn no_growth(what: &str, unit: usize, short: (usize, usize), long: (usize, usize)) -> Result<(), String> {
    if std::env::var_os("AVP_TRACE").is_some() {
        println!("{what}: {} units, {unit} {short:?} {long:?}", (long.1 as f64 - short.1 as f64) / unit as f64);
    }
    if long.1 > short.1 + 30 * unit + (6 << 20) {
        return Err(format!(
            "{what} holds up to {} bytes for {} frames and {} for {}, of {unit} bytes each",
            short.1, short.0, long.1, long.0
        ));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lengths {
    video: Video,
    short: usize,
    long: usize,
    ff: bool,
    wide: bool,
    seek: Option<usize>,
}

fn lengths() -> BoxedStrategy<Lengths> {
    let spaces = prop::sample::select(SPACES.to_vec()).boxed();
    (still(spaces), 40usize..60, any::<bool>(), any::<bool>(), prop_oneof![2 => Just(None), 1 => (1usize..9).prop_map(Some)])
        .prop_map(|(video, short, ff, wide, seek)| Lengths {
            ff: ff && video.header.space.cs() != Cs::C400,
            video,
            short,
            long: short * 8,
            wide,
            seek,
        })
        .boxed()
}

fn check_lengths(c: &Lengths) -> CaseResult {
    let g = c.video.header.geo();
    let wide = c.wide || g.depth > 8;
    let unit = frame_bytes(Geo { depth: if wide { 16 } else { 8 }, ..g });
    let file = Scratch::new(".y4m");
    let peak_of = |frames: usize| {
        write_y4m(&file.0, &c.video, frames);
        if c.ff {
            read_through(&|| open_ff(&file.0), wide, frames, c.seek, unit)
        } else {
            read_through(&|| open(&file.0), wide, frames, c.seek, unit)
        }
    };
    peak_of(2 * (1 + c.seek.unwrap_or(0)))?;
    let (short, long) = (peak_of(c.short)?, peak_of(c.long)?);
    let what = if c.ff { "the FFmpeg decoder" } else { "the Y4M decoder" };
    no_growth(what, unit, (c.short, short), (c.long, long))?;
    Ok(Info::new(true).tag_if(c.ff, "FFmpeg").tag_if(c.seek.is_some(), "seeks"))
}

fn check_compressed(c: &Coded) -> CaseResult {
    let long = c.count();
    let short = c.with_count(long / 5);
    let unit = frame_bytes(Geo { depth: 16, ..c.geo() });
    let file = Scratch::new(&format!(".{}", c.container()));
    let peak_of = |c: &Coded| -> Result<Option<(usize, usize)>, String> {
        if encode(c, &file.0).is_err() {
            return Ok(None);
        }
        let before = in_use();
        let Ok(mut d) = open_ff(&file.0) else { return Ok(None) };
        let (mut n, mut peak) = (0, before);
        guarded(|| {
            while n < 10 * long && d.read_video_frame::<u16>().is_some() {
                n += 1;
                peak = peak.max(in_use());
            }
        })?;
        drop(d);
        let after = in_use();
        if after > before + 4 * unit + (4 << 20) {
            return Err(format!("{} bytes are left in memory after {n} frames of {unit}", after - before));
        }
        Ok(Some((n, peak - before)))
    };
    // Codecs and containers set up tables the first time.
    let (Some(_), Some(a), Some(b)) = (peak_of(&c.with_count(3))?, peak_of(&short)?, peak_of(c)?) else {
        return Ok(Info::new(false).tag("cannot be encoded"));
    };
    no_growth("the FFmpeg decoder", unit, a, b)?;
    Ok(Info::new(b.0 > a.0 * 4))
}

// --------------------------------------------------------------- the tool

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tool {
    video: Video,
    other: Diff,
    short: usize,
    long: usize,
    metric: Option<u8>,
    frames: bool,
    ff: bool,
    threads: u8,
}

const METRICS: [&str; 6] = ["psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede2000"];

fn tools() -> BoxedStrategy<Tool> {
    let spaces = SPACES.iter().copied().filter(|s| s.depth() == 8 && s.cs() != Cs::C400).collect::<Vec<_>>();
    (
        still(prop::sample::select(spaces).boxed()),
        diff(),
        30usize..40,
        prop::option::weighted(0.8, 0u8..6),
        any::<bool>(),
        any::<bool>(),
        1u8..5,
    )
        .prop_map(|(video, other, short, metric, frames, ff, threads)| Tool {
            video,
            other,
            short,
            long: short * 7,
            metric,
            frames,
            ff,
            threads,
        })
        .boxed()
}

/// Runs the tool; the most memory it had at a time.
fn tool_peak(exe: &Path, dir: &Path, c: &Tool) -> Result<usize, String> {
    let mut cmd = Command::new(exe);
    cmd.current_dir(dir)
        .args(["base.y4m", "other.y4m"])
        .env("RAYON_NUM_THREADS", c.threads.to_string())
        .env("TERM", "xterm")
        .stdin(Stdio::null())
        .stderr(Stdio::null());
    // It counts frames only for somebody who watches.
    let watched = if c.frames { pty() } else { None };
    let reader = match watched {
        Some((mut master, slave)) => {
            cmd.stdout(Stdio::from(slave));
            Some(std::thread::spawn(move || {
                let mut buf = [0u8; 4096];
                while matches!(master.read(&mut buf), Ok(1..)) {}
            }))
        }
        None => {
            cmd.stdout(Stdio::null());
            None
        }
    };
    // The tool is not to inherit our peak: a child of a fork has its parent's
    // until it starts the program.
    // SAFETY: nothing happens in the child.
    unsafe { cmd.pre_exec(|| Ok(())) };
    if let Some(m) = c.metric {
        cmd.args(["--metric", METRICS[m as usize]]);
    }
    if c.frames {
        cmd.arg("--frames");
    }
    let child = cmd.spawn().expect("cannot start the command line tool");
    drop(cmd); // closes our copy of the terminal
    // SAFETY: plain calls; the child is ours and waited for once.
    unsafe {
        let mut status = 0;
        let mut usage: libc::rusage = std::mem::zeroed();
        if libc::wait4(child.id() as i32, &mut status, 0, &mut usage) < 0 {
            panic!("the tool's process");
        }
        if let Some(reader) = reader {
            reader.join().expect("reader");
        }
        if status != 0 {
            return Err(format!("the tool fails (status {status:#x})"));
        }
        Ok(usage.ru_maxrss as usize * 1024)
    }
}

fn check_tool(c: &Tool, exe: &Path) -> CaseResult {
    let g = c.video.header.geo();
    let dir = Scratch::dir();
    let base = c.video.raws().remove(0);
    let other = base.derive(&c.other);
    let peak_of = |frames: usize| {
        for (name, raw) in [("base.y4m", &base), ("other.y4m", &other)] {
            let f = std::fs::File::create(dir.0.join(name)).expect("scratch file");
            let mut f = std::io::BufWriter::new(f);
            f.write_all(&c.video.header.text()).expect("scratch file");
            let mut data = b"FRAME\n".to_vec();
            put_samples(&mut data, raw, 1);
            for _ in 0..frames {
                f.write_all(&data).expect("scratch file");
            }
            f.flush().expect("scratch file");
        }
        tool_peak(exe, &dir.0, c)
    };
    let (short, long) = (peak_of(c.short)?, peak_of(c.long)?);
    let pair = 2 * frame_bytes(g);
    let work = c.threads as usize * g.w * g.h * 20;
    if std::env::var_os("AVP_TRACE").is_some() {
        println!("tool: {} pairs, {pair} {short} {long} {c:?}", (long as f64 - short as f64) / pair as f64);
    }
    if long > short + 20 * pair + work + (4 << 20) {
        return Err(format!(
            "the tool needs {short} bytes for {} frames and {long} for {}, of {pair} bytes a pair",
            c.short, c.long
        ));
    }
    Ok(Info::new(true).tag_if(c.ff, "FFmpeg").tag_if(c.frames, "frames counted"))
}

pub fn c25(ctx: &mut Ctx) {
    // Memory is counted for the process, so there is one case at a time.
    let shards = std::mem::replace(&mut ctx.shards, 1);
    let n = ctx.cases(30, 800);
    ctx.leg(
        "clips",
        "every clip metric on a long and a six times longer pair of clips, which end, are limited, cannot \
         be compared at the end or fail there; pools of 1 to 4: the memory in use at any read of a frame \
         and after the call, against the shorter pair; always non-trivial",
        n,
        || held(6),
        check_held,
    );
    let n = ctx.cases(40, 800);
    ctx.leg(
        "y4m",
        "Y4M files of different length read or sought through with both decoders; always non-trivial",
        n,
        lengths,
        check_lengths,
    );
    let n = ctx.cases(14, 400);
    ctx.leg(
        "compressed",
        "compressed files of different length read with the FFmpeg decoder; non-trivial if the long one \
         has more than four times the frames",
        n,
        long_coded,
        check_compressed,
    );
    // The tool's memory is counted for its own process.
    ctx.shards = shards;
    let (exe, exe_ff) = (tool(ctx, false), tool(ctx, true));
    let n = ctx.cases(16, 400);
    ctx.leg(
        "tool",
        "the resident memory of the tool for files of different length; always non-trivial",
        n,
        tools,
        |c| check_tool(c, if c.ff { &exe_ff } else { &exe }),
    );
}

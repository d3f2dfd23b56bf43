//! C19, C20: the command line tool, run as a process in a scratch directory.

use crate::ff::{self, Audio, Recipe, Times};
use crate::metric::*;
use crate::pic::*;
use crate::run::*;
use super::video::ff_video;
use crate::y4m::*;
use av_metrics::video::decode::Decoder;
use av_metrics_decoders::y4m::new_decoder_from_file;
use av_metrics_decoders::FfmpegDecoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Input {
    /// Frames of the base with a difference; `extra` more or fewer frames.
    Derived { diff: Diff, extra: i8 },
    /// Frames of the base with a difference, cut off anywhere.
    Cut { diff: Diff, keep: u16 },
    /// A clip of its own, mostly of another format.
    Foreign(Video),
    /// The base file itself.
    Base,
    /// An earlier file once more.
    Again(u8),
    /// A link to the base file.
    Link,
    Missing,
    Directory,
    Malformed(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Opts {
    metric: Option<u8>,
    /// Text, JSON, CSV, Markdown.
    exports: u8,
    quiet: bool,
    frames: bool,
    /// Standard output is a terminal.
    tty: bool,
    /// Options are written `--name=value`.
    equals: bool,
    /// Options are placed by this.
    order: u32,
    /// The export files exist and are longer than any report.
    stale: bool,
    threads: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cli {
    header: Header,
    base: Vec<[Pat; 3]>,
    files: Vec<Input>,
    names: Vec<u8>,
    opts: Opts,
    /// The tool is the one that decodes with FFmpeg.
    #[serde(default)]
    ff: bool,
}

const METRIC_NAMES: [&str; 6] = ["psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede2000"];
const COLUMNS: [&str; 6] = ["psnr", "apsnr", "psnr_hvs", "ssim", "msssim", "ciede2000"];
const LABELS: [&str; 6] = ["PSNR", "APSNR", "PSNR HVS", "SSIM", "MSSSIM", "CIEDE2000"];
const EXPORTS: [&str; 4] = ["--export-file", "--export-json", "--export-csv", "--export-markdown"];

/// The files that the reports go to.
fn export(i: usize, o: &Opts, dir: &Path) -> String {
    let ext = ["txt", "json", "csv", "md"][i];
    match o.order / 7 % 8 {
        0 => format!("sub/report.{ext}"),
        // Other extensions, or none, mean nothing.
        1 => format!("report.{}", ["json", "csv", "md", "txt"][i]),
        2 => format!("report{i}"),
        3 => dir.join(format!("report.{ext}")).to_str().unwrap().to_string(),
        4 => format!("./my report, {ext}.y4m"),
        _ => format!("r.{ext}"),
    }
}

fn name(kind: u8, i: usize, dir: &Path) -> String {
    match kind % 24 {
        0 => format!("with space {i}.y4m"),
        1 => format!("ünï{i}.y4m"),
        2 => format!("a,b{i}.y4m"),
        3 => format!("q\"{i}.y4m"),
        4 => format!("p|{i}.y4m"),
        5 => format!("sub/c{i}.y4m"),
        6 => format!("./c{i}.y4m"),
        7 => format!("no-extension{i}"),
        8 => format!("Results for {i}.y4m"),
        9 => dir.join(format!("abs{i}.y4m")).to_str().unwrap().to_string(),
        // The same last component, stem, or name but for case.
        12 | 13 => format!("d{i}/same.y4m"),
        14 => format!("d{i}/sub/../same.y4m"),
        15 => match ["y4m", "yuv", "mkv", "tar.y4m"].get(i) {
            Some(ext) => format!("same.{ext}"),
            None => format!("same.{i}"),
        },
        16 => if i % 2 == 0 { "s".repeat(i + 1) } else { "S".repeat(i) },
        17 => format!("{}{i}.y4m", "long-name-".repeat(18)),
        18 => format!("{i}"),
        19 => format!("no -0 {i}.y4m"),
        20 => format!("line\\n{i}%s{{}}.y4m"),
        21 => format!("{}c{i}.y4m", "./".repeat(300 + 11 * (i % 40))),
        _ => format!("clip{i}.y4m"),
    }
}

/// Per metric the expected score.
type Row = [Option<Score>; 6];
/// Per metric the reported values; an inner `None` is a value that has no
/// finite representation in the format.
type Got = [Option<Vec<Option<f64>>>; 6];

struct Outcome {
    stdout: String,
    /// What was shown on the terminal besides.
    shown: String,
    code: Option<i32>,
}

pub(super) fn pty() -> Option<(File, File)> {
    // SAFETY: plain calls of the C library; the results are checked.
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return None;
        }
        let master = File::from_raw_fd(m);
        let mut name = [0 as libc::c_char; 128];
        if libc::grantpt(m) != 0
            || libc::unlockpt(m) != 0
            || libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0
        {
            return None;
        }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return None;
        }
        let slave = File::from_raw_fd(s);
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(slave.as_raw_fd(), &mut t) == 0 {
            libc::cfmakeraw(&mut t);
            libc::tcsetattr(slave.as_raw_fd(), libc::TCSANOW, &t);
        }
        Some((master, slave))
    }
}

fn run_tool(tool: &Path, dir: &Path, args: &[String], tty: bool, threads: u8) -> Result<Outcome, String> {
    run_tool_to(tool, dir, args, tty, tty, threads, None)
}

fn run_tool_to(
    tool: &Path,
    dir: &Path,
    args: &[String],
    tty: bool,
    watched: bool,
    threads: u8,
    out: Option<File>,
) -> Result<Outcome, String> {
    let mut cmd = Command::new(tool);
    cmd.current_dir(dir)
        .args(args)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .env("RAYON_NUM_THREADS", (1 + threads % 4).to_string())
        .env("RUST_BACKTRACE", "0")
        .env("TERM", "xterm")
        .env_remove("NO_COLOR")
        .env_remove("CLICOLOR")
        .env_remove("CLICOLOR_FORCE");
    let mut shown: Option<Box<dyn Read + Send>> = None;
    let reader: Box<dyn Read + Send> = if tty {
        let (master, slave) = pty().expect("a pseudo terminal");
        cmd.stdout(Stdio::from(slave));
        Box::new(master)
    } else {
        let (r, w) = std::io::pipe().expect("a pipe");
        cmd.stdout(Stdio::from(w));
        Box::new(r)
    };
    if let Some(out) = out {
        cmd.stdout(Stdio::from(out));
    }
    if watched {
        // Another one for the progress, so that the two do not mix.
        let (master, slave) = pty().expect("a pseudo terminal");
        cmd.stderr(Stdio::from(slave));
        shown = Some(Box::new(master));
    }
    let mut child = cmd.spawn().expect("cannot start the command line tool");
    drop(cmd); // closes our copies of the output
    let drain = |mut reader: Box<dyn Read + Send>| {
        std::thread::spawn(move || {
            let mut all = vec![];
            let mut buf = [0u8; 4096];
            loop {
                match reader.read(&mut buf) {
                    Ok(0) | Err(_) => break, // a terminal ends with an error
                    Ok(n) => all.extend_from_slice(&buf[..n]),
                }
            }
            all
        })
    };
    let out = drain(reader);
    let shown = shown.map(drain);
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("the tool's process") {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(100) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("the tool does not finish: {args:?}"));
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let out = out.join().expect("reader");
    Ok(Outcome {
        stdout: String::from_utf8(out).map_err(|_| "standard output is not UTF-8".to_string())?,
        shown: shown.map_or(String::new(), |s| String::from_utf8_lossy(&s.join().expect("reader")).into_owned()),
        code: status.code(),
    })
}

fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

// ----------------------------------------------------------------- reports

fn parse_json(text: &str, base: &str) -> Result<Vec<(String, Got)>, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("JSON does not parse: {e}"))?;
    if v["base"] != base {
        return Err(format!("JSON: the base is {}, not {base:?}", v["base"]));
    }
    let list = v["comparisons"].as_array().ok_or("JSON: no comparisons")?;
    let mut rows = vec![];
    for c in list {
        let name = c["filename"].as_str().ok_or("JSON: no file name")?.to_string();
        let mut got = Got::default();
        for (k, col) in COLUMNS.iter().enumerate() {
            got[k] = match &c[*col] {
                Value::Null => None,
                Value::Number(n) => Some(vec![n.as_f64()]),
                Value::Object(o) => {
                    let mut vs = vec![];
                    for key in ["y", "u", "v", "avg"] {
                        match o.get(key) {
                            Some(Value::Null) => vs.push(None),
                            Some(Value::Number(n)) => vs.push(n.as_f64()),
                            _ => return Err(format!("JSON: {col} of {name} has no {key}")),
                        }
                    }
                    Some(vs)
                }
                x => return Err(format!("JSON: {col} of {name} is {x}")),
            };
        }
        rows.push((name, got));
    }
    Ok(rows)
}

fn table(head: Vec<String>, lines: Vec<Vec<String>>, what: &str) -> Result<Vec<(String, Got)>, String> {
    let mut at = BTreeMap::new();
    for (i, h) in head.iter().enumerate() {
        at.insert(h.as_str(), i);
    }
    let mut rows = vec![];
    for l in &lines {
        if l.len() != head.len() {
            return Err(format!("{what}: the row {l:?} has {} fields, the head {}", l.len(), head.len()));
        }
        let field = |h: &str| at.get(h).map(|&i| l[i].clone()).ok_or(format!("{what}: no column {h}"));
        let mut got = Got::default();
        for (k, col) in COLUMNS.iter().enumerate() {
            let f = field(col)?;
            // "-0" is how the tool writes the absence of a score.
            got[k] = if f == "-0" {
                None
            } else {
                f.parse::<f64>().ok().map(|x| vec![Some(x)])
            };
        }
        rows.push((field("filename")?, got));
    }
    Ok(rows)
}

fn parse_csv(text: &str) -> Result<Vec<(String, Got)>, String> {
    let mut lines: Vec<Vec<String>> = vec![];
    let (mut row, mut field, mut quoted, mut any) = (vec![], String::new(), false, false);
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        any = true;
        match c {
            '"' if quoted && it.peek() == Some(&'"') => {
                it.next();
                field.push('"');
            }
            '"' if quoted => quoted = false,
            '"' if field.is_empty() => quoted = true,
            ',' if !quoted => row.push(std::mem::take(&mut field)),
            '\r' if !quoted => {}
            '\n' if !quoted => {
                row.push(std::mem::take(&mut field));
                lines.push(std::mem::take(&mut row));
                any = false;
            }
            c => field.push(c),
        }
    }
    if quoted || any {
        return Err("CSV: the last line has no end".into());
    }
    if lines.is_empty() {
        return Err("CSV: empty".into());
    }
    let head = lines.remove(0);
    table(head, lines, "CSV")
}

fn parse_markdown(text: &str) -> Result<Vec<(String, Got)>, String> {
    let mut lines = vec![];
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        let l = l.trim();
        if !l.starts_with('|') || !l.ends_with('|') || l.len() < 2 {
            return Err(format!("Markdown: not a row: {l:?}"));
        }
        let (mut row, mut f) = (vec![], String::new());
        let mut it = l[1..].chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\\' if it.peek() == Some(&'|') => f.push(it.next().unwrap()),
                '|' => row.push(std::mem::take(&mut f).trim().to_string()),
                c => f.push(c),
            }
        }
        lines.push(row);
    }
    if lines.len() < 2 || !lines[1].iter().all(|f| f.contains('-') && f.chars().all(|c| "-: ".contains(c))) {
        return Err("Markdown: no head".into());
    }
    let head = lines.remove(0);
    lines.remove(0);
    table(head, lines, "Markdown")
}

fn parse_text(text: &str, base: &str, what: &str) -> Result<Vec<(String, Got)>, String> {
    let text = plain(text);
    let mut rows: Vec<(String, Got)> = vec![];
    let mut seen_base = false;
    for l in text.lines() {
        let l = l.trim();
        if rows.is_empty() && l == format!("Comparing {base}") {
            seen_base = true;
        } else if let Some(n) = l.strip_prefix("Results for ").and_then(|n| n.strip_suffix(':')) {
            rows.push((n.to_string(), Got::default()));
        } else if let Some((label, rest)) = l.split_once('→') {
            let k = LABELS
                .iter()
                .position(|x| *x == label.trim())
                .ok_or(format!("{what}: unknown result {label:?}"))?;
            let row = rows.last_mut().ok_or(format!("{what}: a result before the first file"))?;
            let mut vs = vec![];
            let keys: &[&str] = if k == 5 { &["Delta:"] } else { &["Y:", "U/Cb:", "V/Cr:", "Avg value:"] };
            for key in keys {
                let tail = rest.split_once(key).ok_or(format!("{what}: no {key} in {l:?}"))?.1;
                let word = tail.split_whitespace().next().unwrap_or("");
                vs.push(Some(word.parse::<f64>().map_err(|_| format!("{what}: {key} is {word:?}"))?));
            }
            if row.1[k].is_some() {
                return Err(format!("{what}: {label} twice"));
            }
            row.1[k] = Some(vs);
        }
    }
    if !seen_base {
        return Err(format!("{what}: the base file is not named"));
    }
    Ok(rows)
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// All values; infinity has no representation.
    Json,
    /// The average only.
    Table,
    /// Rounded to four decimals.
    Text,
}

fn verify(what: &str, kind: Kind, got: &[(String, Got)], names: &[String], want: &[Row]) -> Result<(), String> {
    let files: Vec<&String> = got.iter().map(|g| &g.0).collect();
    if !files.iter().copied().eq(names) {
        return Err(format!("{what}: entries for {files:?} instead of {names:?}"));
    }
    for ((n, g), w) in got.iter().zip(want) {
        for k in 0..6 {
            let at = format!("{what}: {} of {n}", COLUMNS[k]);
            match (&g[k], &w[k]) {
                (None, None) => {}
                (Some(v), None) => return Err(format!("{at} is {v:?}, but the library has no score or it was not asked for")),
                (None, Some(s)) => {
                    // In the tables an exact (negative) zero looks like no score.
                    if !(kind == Kind::Table && close(VIDEO_METRICS[k], 0.0, s.avg())) {
                        return Err(format!("{at} is missing, the library's score is {s:?}"));
                    }
                }
                (Some(v), Some(s)) => {
                    let exp = if kind == Kind::Table { vec![s.avg()] } else { s.values() };
                    if v.len() != exp.len() {
                        return Err(format!("{at} has {} values", v.len()));
                    }
                    for (a, e) in v.iter().zip(&exp) {
                        let ok = match a {
                            // Infinity; another run may come out a rounding below it.
                            None => kind == Kind::Json && close(VIDEO_METRICS[k], f64::INFINITY, *e),
                            Some(a) => {
                                let rounded = kind == Kind::Text && (a - e).abs() <= 0.5001e-4 + 1e-9 * e.abs();
                                rounded || close(VIDEO_METRICS[k], *a, *e)
                            }
                        };
                        if !ok {
                            return Err(format!("{at} is {v:?}, the library's values are {exp:?}"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- cases

fn derive_n(r: &Raw, d: &Diff, i: usize) -> Raw {
    match d {
        Diff::Noise { seed, amp, density, planes } => r.derive(&Diff::Noise {
            seed: seed.wrapping_add(i as u32 * 7919),
            amp: *amp,
            density: *density,
            planes: *planes,
        }),
        d => r.derive(d),
    }
}

fn stream(h: &Header, frames: &[Raw]) -> Vec<u8> {
    let mut out = h.text();
    for r in frames {
        out.extend_from_slice(b"FRAME\n");
        put_samples(&mut out, r, h.bytes());
    }
    out
}

/// Writes a losslessly compressed file; `false` if that is not possible.
fn compressed(path: &Path, frames: &[Raw], kind: u8) -> bool {
    let recipe = Recipe {
        codec: "ffv1".into(),
        opts: vec![("level".into(), "3".into()), ("slices".into(), "4".into())],
        container: ["matroska", "nut", "avi"][kind as usize % 3].into(),
        jpeg: false,
        gop: kind % 7,
        bframes: 0,
        audio: [Audio::None, Audio::First, Audio::Second][kind as usize / 3 % 3],
        second: false,
        ahead: false,
        times: Times::Regular,
        rate: (25, 1),
    };
    let done = ff::write(path, &recipe, frames).is_ok();
    if !done {
        let _ = std::fs::remove_file(path);
    }
    done
}

struct Laid {
    base: String,
    names: Vec<String>,
    openable: bool,
}

fn lay_out(c: &Cli, dir: &Path) -> Laid {
    std::fs::create_dir_all(dir.join("sub")).expect("scratch directory");
    for i in 0..=c.files.len() {
        std::fs::create_dir_all(dir.join(format!("d{i}/sub"))).expect("scratch directory");
    }
    let base = name(c.names.first().copied().unwrap_or(11), 0, dir);
    let raws: Vec<Raw> = c.base.iter().map(|p| Raw::render(c.header.geo(), p, &[])).collect();
    let mut openable = true;
    std::fs::write(dir.join(&base), stream(&c.header, &raws)).expect("scratch file");
    let mut names = vec![];
    for (i, f) in c.files.iter().enumerate() {
        let mut n = name(c.names.get(i + 1).copied().unwrap_or(11), i + 1, dir);
        let data = match f {
            Input::Derived { diff, extra } => {
                let want = (raws.len() as i64 + *extra as i64).max(0) as usize;
                let frames: Vec<Raw> = (0..want)
                    .filter_map(|k| raws.get(k).or(raws.last()).map(|r| derive_n(r, diff, k)))
                    .collect();
                let name = c.names.get(i + 1).copied().unwrap_or(11);
                if c.ff && name % 5 < 3 && compressed(&dir.join(&n), &frames, name) {
                    None
                } else {
                    Some(stream(&c.header, &frames))
                }
            }
            Input::Cut { diff, keep } => {
                let frames: Vec<Raw> = raws.iter().enumerate().map(|(k, r)| derive_n(r, diff, k)).collect();
                let mut d = stream(&c.header, &frames);
                let head = c.header.text().len();
                d.truncate(head + (d.len() - head) * *keep as usize / 65535);
                Some(d)
            }
            Input::Foreign(v) => Some(v.bytes()),
            Input::Base => {
                n = base.clone();
                None
            }
            Input::Again(k) => {
                match names.get(*k as usize % i.max(1)) {
                    Some(m) => n = String::clone(m),
                    None => n = base.clone(),
                }
                None
            }
            Input::Link => {
                std::os::unix::fs::symlink(dir.join(&base), dir.join(&n)).expect("scratch file");
                None
            }
            Input::Missing => {
                openable = false;
                None
            }
            Input::Directory => {
                openable = false;
                std::fs::create_dir_all(dir.join(&n)).expect("scratch directory");
                None
            }
            Input::Malformed(k) => {
                openable = false;
                Some(match k % 3 {
                    0 => vec![],
                    1 => b"YUV4MPEG2 W8 F25:1\nFRAME\n".to_vec(),
                    _ => b"RIFF and nothing useful\n".to_vec(),
                })
            }
        };
        if let Some(d) = data {
            std::fs::write(dir.join(&n), d).expect("scratch file");
        }
        names.push(n);
    }
    if c.ff {
        // FFmpeg tells which files it can read.
        openable = std::iter::once(&base)
            .chain(&names)
            .all(|n| guarded(|| FfmpegDecoder::new(dir.join(n)).is_ok()) == Ok(true));
    }
    Laid { base, names, openable }
}

fn expected(dir: &Path, base: &str, name: &str, metric: Option<u8>, ff: bool) -> Result<Row, String> {
    let mut row = Row::default();
    for (k, m) in VIDEO_METRICS.iter().enumerate() {
        if metric.map_or(true, |x| x as usize % 6 == k) {
            let score = || {
                let (base, name) = (dir.join(base), dir.join(name));
                Ok::<_, String>(if ff {
                    let (mut a, mut b) = (FfmpegDecoder::new(base)?, FfmpegDecoder::new(name)?);
                    video_score(*m, &mut a, &mut b, None, |_| {}).ok()
                } else {
                    let (mut a, mut b) = (new_decoder_from_file(base)?, new_decoder_from_file(name)?);
                    video_score(*m, &mut a, &mut b, None, |_| {}).ok()
                })
            };
            row[k] = guarded(score)
                .and_then(|r| r)
                .map_err(|e| format!("the library fails on {name}: {e}"))?;
        }
    }
    Ok(row)
}

fn arguments(o: &Opts, base: &str, names: &[String], dir: &Path) -> Vec<String> {
    let mut opts: Vec<Vec<String>> = vec![];
    let mut add = |k: &str, v: Option<&str>| {
        opts.push(match v {
            None => vec![k.to_string()],
            Some(v) if o.equals => vec![format!("{k}={v}")],
            Some(v) => vec![k.to_string(), v.to_string()],
        })
    };
    if let Some(m) = o.metric {
        add("--metric", Some(METRIC_NAMES[m as usize % 6]));
    }
    for (i, k) in EXPORTS.iter().enumerate() {
        if o.exports & (1 << i) != 0 {
            add(k, Some(&export(i, o, dir)));
        }
    }
    if o.quiet {
        add("--quiet", None);
    }
    if o.frames {
        add("--frames", None);
    }
    // Before the base, between base and files, or behind the files.
    let n = opts.len().max(1) as u32;
    opts.rotate_left((o.order % n) as usize);
    let mut parts = [vec![], vec![], vec![]];
    for (i, a) in opts.into_iter().enumerate() {
        parts[hash2(o.order, i as u32, 3) as usize % 3].extend(a);
    }
    let [mut args, between, behind] = parts;
    args.push(base.to_string());
    args.extend(between);
    args.extend(names.iter().cloned());
    args.extend(behind);
    args
}

fn listing(dir: &Path) -> BTreeSet<PathBuf> {
    let mut out = BTreeSet::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).expect("scratch directory") {
            let p = e.expect("scratch directory").path();
            if p.is_dir() {
                todo.push(p.clone());
            }
            out.insert(p);
        }
    }
    out
}

fn check_cli(c: &Cli, tool: &Path) -> CaseResult {
    let scratch = Scratch::dir();
    let dir = scratch.0.canonicalize().expect("scratch directory");
    let laid = lay_out(c, &dir);
    let o = &c.opts;
    let exported = |i: usize| o.exports & (1 << i) != 0;
    if o.stale {
        for i in 0..4 {
            if exported(i) {
                std::fs::write(dir.join(export(i, o, &dir)), "stale ".repeat(2000)).expect("scratch file");
            }
        }
    }
    let inputs: Vec<(PathBuf, Vec<u8>)> = std::iter::once(&laid.base)
        .chain(&laid.names)
        .filter_map(|n| std::fs::read(dir.join(n)).ok().map(|d| (dir.join(n), d)))
        .collect();
    let before = listing(&dir);
    let args = arguments(o, &laid.base, &laid.names, &dir);
    let r = run_tool(tool, &dir, &args, o.tty, o.threads)?;
    if !laid.openable {
        return if r.code == Some(0) {
            Err(format!("an input that cannot be opened, yet the tool succeeds: {args:?}"))
        } else {
            Ok(Info::new(true).tag("input that cannot be opened"))
        };
    }
    if r.code != Some(0) {
        return Err(format!("the tool ends with {:?}: {args:?}", r.code));
    }
    for (p, d) in &inputs {
        if std::fs::read(p).ok().as_ref() != Some(d) {
            return Err(format!("the input {} has changed", p.display()));
        }
    }
    let mut want_files = before;
    for i in 0..4 {
        if exported(i) {
            want_files.insert(dir.join(export(i, o, &dir)));
        }
    }
    let files = listing(&dir);
    if files != want_files {
        let d: Vec<_> = files.symmetric_difference(&want_files).collect();
        return Err(format!("files that should not be there or are missing: {d:?}, arguments {args:?}"));
    }
    let mut want = vec![];
    for n in &laid.names {
        want.push(expected(&dir, &laid.base, n, o.metric, c.ff)?);
    }
    let ctx = |e: String| format!("{e}; arguments {args:?}");
    if o.quiet {
        if !plain(&r.stdout).trim().is_empty() {
            return Err(ctx(format!("quiet, but standard output has {:?}", r.stdout)));
        }
    } else {
        let rows = parse_text(&r.stdout, &laid.base, "standard output").map_err(ctx)?;
        verify("standard output", Kind::Text, &rows, &laid.names, &want).map_err(ctx)?;
    }
    for i in 0..4 {
        if exported(i) {
            let f = export(i, o, &dir);
            let text = std::fs::read_to_string(dir.join(&f)).map_err(|e| format!("{f}: {e}"))?;
            let (what, kind, rows) = match i {
                0 => ("text file", Kind::Text, parse_text(&text, &laid.base, "text file")),
                1 => ("JSON", Kind::Json, parse_json(&text, &laid.base)),
                2 => ("CSV", Kind::Table, parse_csv(&text)),
                _ => ("Markdown", Kind::Table, parse_markdown(&text)),
            };
            verify(what, kind, &rows.map_err(ctx)?, &laid.names, &want).map_err(ctx)?;
        }
    }
    let scored = want.iter().filter(|w| w.iter().any(Option::is_some)).count();
    let distinct: BTreeSet<u64> = want
        .iter()
        .flat_map(|w| w.iter().flatten().map(|s| s.avg().to_bits()))
        .collect();
    Ok(Info::new(scored >= 1 && distinct.len() >= 2 || o.metric.is_some() && scored >= 1)
        .tag_if(laid.names.len() > 1, "several files")
        .tag_if(want.iter().any(|w| w.iter().all(Option::is_none)), "file without any score")
        .tag_if(
            want.iter().any(|w| w.iter().any(Option::is_some) && w.iter().any(Option::is_none)) && o.metric.is_none(),
            "file with some scores",
        )
        .tag_if(o.metric.is_some(), "one metric")
        .tag_if(o.quiet, "quiet")
        .tag_if(o.tty, "terminal")
        .tag_if(o.tty && o.frames && !o.quiet, "frames counted")
        .tag_if(o.exports.count_ones() > 1, "several exports"))
}

fn input(scored_only: bool) -> BoxedStrategy<Input> {
    let derived = (diff(), prop_oneof![4 => Just(0i8), 2 => -3i8..4])
        .prop_map(|(diff, extra)| Input::Derived { diff, extra });
    if scored_only {
        return derived.boxed();
    }
    prop_oneof![
        8 => derived,
        2 => video(space(), (1, 48), 3).prop_map(Input::Foreign),
        1 => Just(Input::Base),
        1 => (diff(), any::<u16>()).prop_map(|(diff, keep)| Input::Cut { diff, keep }),
        1 => any::<u8>().prop_map(Input::Again),
        1 => Just(Input::Link),
    ]
    .boxed()
}

fn clip_header() -> BoxedStrategy<Header> {
    prop_oneof![
        6 => header(space(), (16, 64)),
        2 => header(space(), (1, 40)),
        1 => header(space(), (60, 140)),
    ]
    .prop_map(|mut h| {
        h.extra.clear();
        h
    })
    .boxed()
}

fn base_frames() -> BoxedStrategy<Vec<[Pat; 3]>> {
    prop_oneof![
        12 => prop::collection::vec(pats(), 1..4),
        3 => prop::collection::vec(pats(), 0..12),
    ]
    .boxed()
}

fn reports(files: std::ops::Range<usize>) -> BoxedStrategy<Cli> {
    (
        clip_header(),
        base_frames(),
        prop::collection::vec(input(false), files),
        prop::collection::vec(any::<u8>(), 14),
        any::<u8>(),
        any::<bool>(),
        any::<u32>(),
    )
        .prop_map(|(header, base, files, names, threads, stale, order)| Cli {
            header,
            base,
            files,
            names,
            opts: Opts {
                metric: None,
                exports: 15,
                quiet: false,
                frames: false,
                tty: false,
                equals: false,
                order,
                stale,
                threads,
            },
            ff: false,
        })
        .boxed()
}

fn long_clips() -> BoxedStrategy<Cli> {
    (
        header(space(), (16, 24)),
        prop::collection::vec(pats(), 60..400),
        prop::collection::vec(input(true), 1..3),
        any::<u8>(),
    )
        .prop_map(|(mut header, base, files, threads)| {
            header.extra.clear();
            Cli {
                header,
                base,
                files,
                names: vec![11; 4],
                opts: Opts {
                    metric: None,
                    exports: 15,
                    quiet: false,
                    frames: false,
                    tty: false,
                    equals: false,
                    order: 0,
                    stale: false,
                    threads,
                },
                ff: false,
            }
        })
        .boxed()
}

fn opts(tty: bool) -> BoxedStrategy<Opts> {
    (
        prop_oneof![1 => Just(None), 2 => (0u8..6).prop_map(Some)],
        0u8..16,
        any::<bool>(),
        prop_oneof![1 => Just(tty), 1 => any::<bool>()],
        any::<bool>(),
        any::<u32>(),
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(move |(metric, exports, quiet, frames, equals, order, stale, threads)| Opts {
            metric,
            exports,
            quiet: quiet && (!tty || order % 5 == 0),
            frames,
            tty,
            equals,
            order,
            stale,
            threads,
        })
        .boxed()
}

fn options(tty: bool) -> BoxedStrategy<Cli> {
    (
        clip_header(),
        base_frames(),
        prop::collection::vec(input(false), 1..3),
        prop::collection::vec(any::<u8>(), 4),
        opts(tty),
    )
        .prop_map(|(header, base, files, names, opts)| Cli { header, base, files, names, opts, ff: false })
        .boxed()
}

fn unopenable() -> BoxedStrategy<Cli> {
    let bad = prop_oneof![
        2 => Just(Input::Missing),
        1 => Just(Input::Directory),
        2 => any::<u8>().prop_map(Input::Malformed),
    ];
    (options(false), bad, any::<u8>(), any::<bool>())
        .prop_map(|(mut c, bad, at, tty)| {
            let k = at as usize % (c.files.len() + 1);
            c.files.insert(k, bad);
            c.opts.tty = tty && at % 4 == 0;
            c
        })
        .boxed()
}

// ------------------------------------------------- uses that have to fail

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Misuse {
    /// A base that cannot be opened.
    Base(u8),
    /// The report goes to a full device.
    Full(u8),
    /// Standard output is a full device.
    FullOutput,
    /// The report goes into a directory that does not exist.
    NoDirectory(u8),
    Metric(String),
    NoFiles,
    Nothing,
    Unknown,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    header: Header,
    misuse: Misuse,
    opts: Opts,
}

fn check_bad(c: &Bad, tool: &Path) -> CaseResult {
    let scratch = Scratch::dir();
    let dir = scratch.0.canonicalize().expect("scratch directory");
    let r = Raw::render(c.header.geo(), &[Pat::Flat(30000); 3], &[]);
    std::fs::write(dir.join("good.y4m"), stream(&c.header, &[r])).expect("scratch file");
    let (mut base, mut files) = ("good.y4m".to_string(), vec!["good.y4m".to_string()]);
    let mut o = c.opts.clone();
    let mut more = vec![];
    match &c.misuse {
        Misuse::Base(k) => {
            base = "bad.y4m".into();
            match k % 3 {
                0 => {}
                1 => std::fs::create_dir(dir.join(&base)).expect("scratch directory"),
                _ => std::fs::write(dir.join(&base), b"YUV4MPEG2\nFRAME\n").expect("scratch file"),
            }
        }
        Misuse::Full(k) | Misuse::NoDirectory(k) => {
            let e = *k as usize % 4;
            o.exports &= !(1 << e);
            let to = if matches!(c.misuse, Misuse::Full(_)) {
                if !Path::new("/dev/full").exists() {
                    return Ok(Info::new(false).tag("no full device here"));
                }
                "/dev/full"
            } else {
                "no/such/dir/report"
            };
            more = vec![EXPORTS[e].to_string(), to.to_string()];
        }
        Misuse::FullOutput => {
            if !Path::new("/dev/full").exists() {
                return Ok(Info::new(false).tag("no full device here"));
            }
            o.quiet = false;
        }
        Misuse::Metric(m) => {
            o.metric = None;
            more = vec!["--metric".into(), m.clone()];
        }
        Misuse::NoFiles => files.clear(),
        Misuse::Nothing => {}
        Misuse::Unknown => more = vec!["--no-such-option".into()],
    }
    let args = if matches!(c.misuse, Misuse::Nothing) {
        vec![]
    } else {
        let mut a = more;
        a.extend(arguments(&o, &base, &files, &dir));
        a
    };
    let full = matches!(c.misuse, Misuse::FullOutput)
        .then(|| File::options().write(true).open("/dev/full").expect("full device"));
    let r = run_tool_to(tool, &dir, &args, false, false, o.threads, full)?;
    if r.code == Some(0) {
        return Err(format!("the tool succeeds with arguments {args:?} ({:?})", c.misuse));
    }
    Ok(Info::new(true).tag(match c.misuse {
        Misuse::Base(_) => "base cannot be opened",
        Misuse::Full(_) | Misuse::NoDirectory(_) | Misuse::FullOutput => "report cannot be written",
        _ => "wrong usage",
    }))
}

// ---------------------------------------------------------------- progress

/// The frames that both files have.
fn common_frames(dir: &Path, base: &str, name: &str, ff: bool) -> Result<u64, String> {
    fn count<D: Decoder>(mut a: D, mut b: D) -> u64 {
        let mut n = 0;
        while a.read_video_frame::<u16>().is_some() && b.read_video_frame::<u16>().is_some() {
            n += 1;
        }
        n
    }
    let (base, name) = (dir.join(base), dir.join(name));
    guarded(|| {
        Ok::<_, String>(if ff {
            count(FfmpegDecoder::new(base)?, FfmpegDecoder::new(name)?)
        } else {
            count(new_decoder_from_file(base)?, new_decoder_from_file(name)?)
        })
    })
    .and_then(|r| r)
}

const STEPS: [&str; 6] = ["PSNR", "APSNR", "PSNR-HVS", "SSIM", "MSSSIM", "CIEDE2000"];

/// What progress can be shown: for one file, before the first metric (`None`)
/// and for every metric.
struct Phase {
    metric: Option<usize>,
    common: u64,
    /// It is certain to be drawn, up to the last frame if there is a score.
    certain: Option<bool>,
}

struct Draw {
    metric: Option<usize>,
    pos: u64,
    total: Option<String>,
}

impl Phase {
    fn fits(&self, d: &Draw) -> bool {
        self.metric == d.metric
            && d.pos <= self.common
            && d.total.as_ref().map_or(true, |t| *t == self.common.to_string())
    }
}

/// Whether the draws are the phases in order: the number of draws that fit.
fn follow(phases: &[Phase], draws: &[Draw]) -> Result<(), usize> {
    // Where the phases before may end.
    let mut ends = BTreeSet::from([0]);
    let mut far = 0;
    for p in phases {
        let mut next = BTreeSet::new();
        for &start in &ends {
            if p.certain.is_none() {
                next.insert(start);
            }
            // At first the position of the phase before may be shown.
            let (mut begun, mut last) = (false, 0);
            for (k, d) in draws.iter().enumerate().skip(start) {
                if !p.fits(d) || begun && d.pos < last {
                    break;
                }
                begun |= d.pos == 0;
                last = d.pos;
                far = far.max(k + 1);
                if p.certain != Some(true) || d.pos == p.common {
                    next.insert(k + 1);
                }
            }
        }
        ends = next;
    }
    if ends.contains(&draws.len()) {
        Ok(())
    } else {
        Err(far)
    }
}

fn check_progress(c: &Cli, tool: &Path) -> CaseResult {
    let scratch = Scratch::dir();
    let dir = scratch.0.canonicalize().expect("scratch directory");
    let laid = lay_out(c, &dir);
    let o = &c.opts;
    let args = arguments(o, &laid.base, &laid.names, &dir);
    let r = run_tool_to(tool, &dir, &args, o.tty, true, o.threads, None)?;
    if !laid.openable {
        // C20 judges this.
        return Ok(Info::new(false));
    }
    if r.code != Some(0) {
        return Err(format!("the tool ends with {:?}: {args:?}", r.code));
    }
    let shown = plain(&r.shown);
    let ctx = |e: String| format!("{e}; arguments {args:?}; shown: {shown:?}");
    if !o.tty || o.quiet {
        return if !shown.contains("Frame ") && !shown.contains("Computing ") {
            Ok(Info::new(true).tag("nothing to be shown"))
        } else {
            Err(ctx("progress is shown in quiet mode or without a terminal".into()))
        };
    }
    let metrics: Vec<usize> = (0..6).filter(|k| o.metric.map_or(true, |m| m as usize % 6 == *k)).collect();
    let mut phases = vec![];
    let mut complete = false;
    for n in &laid.names {
        let common = common_frames(&dir, &laid.base, n, c.ff)?;
        phases.push(Phase { metric: None, common, certain: None });
        for m in &metrics {
            // What is drawn rarely is drawn at once; the rest may be left out.
            let certain = if metrics.len() == 1 && common <= 4 {
                let row = expected(&dir, &laid.base, n, o.metric, c.ff)?;
                let scored = row.iter().any(Option::is_some);
                complete |= scored;
                Some(scored)
            } else {
                None
            };
            phases.push(Phase { metric: Some(*m), common, certain });
        }
    }
    let mut draws = vec![];
    // libav writes messages in between.
    for part in shown.split(['\r', '\n']).filter(|p| p.contains(" - Frame ")) {
        let bad = || ctx(format!("progress {part:?} does not fit in"));
        let (what, count) = part.split_once(" - Frame ").ok_or_else(bad)?;
        let metric = match what.trim().strip_prefix("Computing ") {
            Some(m) => Some(STEPS.iter().position(|s| *s == m).ok_or_else(bad)?),
            None if what.trim().is_empty() => None,
            None => return Err(bad()),
        };
        let count = count.split(' ').next().unwrap();
        let (pos, total) = match count.split_once('/') {
            Some((p, t)) => (p, Some(t.to_string())),
            None => (count, None),
        };
        if total.is_some() != o.frames {
            return Err(bad());
        }
        draws.push(Draw { metric, pos: pos.parse().map_err(|_| bad())?, total });
    }
    follow(&phases, &draws).map_err(|n| {
        let common: Vec<u64> = phases.iter().filter(|p| p.metric.is_none()).map(|p| p.common).collect();
        ctx(format!("with {common:?} frames in common, the progress does not fit from the {n}th draw on"))
    })?;
    Ok(Info::new(!draws.is_empty() && phases.iter().any(|p| p.common > 0))
        .tag_if(o.frames, "frames counted")
        .tag_if(complete, "counted to the end")
        .tag_if(c.ff, "FFmpeg build")
        .tag_if(phases.iter().any(|p| p.common != phases[0].common), "files of different length"))
}

pub fn c26(ctx: &mut Ctx) {
    if pty().is_none() {
        ctx.assumptions.push("no pseudo terminal here: nothing was checked".into());
        return;
    }
    let (tool, tool_ff) = (tool(ctx, false), tool(ctx, true));
    let screen = |n: std::ops::Range<usize>| {
        (options(true), prop::collection::vec(input(false), n), any::<u8>(), any::<bool>())
            .prop_map(|(mut c, files, k, one)| {
                c.files = files;
                c.opts.tty = k % 8 != 0;
                c.opts.quiet = k % 8 == 1;
                c.opts.frames = k % 3 > 0;
                c.opts.stale = false;
                c.opts.metric = if one { Some(k % 6) } else { c.opts.metric };
                c
            })
            .boxed()
    };
    const RULE: &str = "runs of the tool with standard error on a pseudo terminal, and standard output on another \
        one or not: the metrics asked for in order, for each file, counts that do not go beyond the frames that \
        both videos have, the right total with --frames, nothing in quiet mode; non-trivial if progress is shown \
        or must not be";
    let n = ctx.cases(3_000, 60_000);
    ctx.leg("screen", RULE, n, || screen(1..4), |c| check_progress(c, &tool));
    let n = ctx.cases(150, 3_000);
    ctx.leg("many-files", RULE, n, || screen(5..20), |c| check_progress(c, &tool));
    let n = ctx.cases(60, 1_500);
    ctx.leg(
        "long-clips",
        RULE,
        n,
        || {
            (long_clips(), 0u8..6, any::<bool>(), any::<bool>())
                .prop_map(|(mut c, m, one, frames)| {
                    c.opts.tty = true;
                    c.opts.frames = frames;
                    c.opts.metric = one.then_some(m);
                    c
                })
                .boxed()
        },
        |c| check_progress(c, &tool),
    );
    let n = ctx.cases(300, 6_000);
    ctx.leg("ffmpeg-build", RULE, n, || with_ff(screen(1..4)), |c| check_progress(c, &tool_ff));
}

/// Formats that FFmpeg reads.
fn with_ff(s: BoxedStrategy<Cli>) -> BoxedStrategy<Cli> {
    (s, ff_video((1, 64), 1))
        .prop_map(|(mut c, v)| {
            c.ff = true;
            c.header = v.header;
            c.header.extra.clear();
            if c.base.is_empty() {
                c.base.push([Pat::Flat(20000); 3]);
            }
            c
        })
        .boxed()
}

fn bad() -> BoxedStrategy<Bad> {
    let m = prop_oneof![
        3 => any::<u8>().prop_map(Misuse::Base),
        3 => any::<u8>().prop_map(Misuse::Full),
        1 => Just(Misuse::FullOutput),
        2 => any::<u8>().prop_map(Misuse::NoDirectory),
        2 => prop::sample::select(vec!["", "vmaf", "psnr_hvs", "PSNR", "ssim2", "all"])
            .prop_map(|s| Misuse::Metric(s.to_string())),
        1 => Just(Misuse::NoFiles),
        1 => Just(Misuse::Nothing),
        1 => Just(Misuse::Unknown),
    ];
    (clip_header(), m, opts(false))
        .prop_map(|(header, misuse, opts)| Bad { header, misuse, opts })
        .boxed()
}

pub(super) fn tool(ctx: &Ctx, ff: bool) -> PathBuf {
    let dir = if ff { "target-cli-ff" } else { "target-cli" };
    let p = ctx.replay_dir.parent().unwrap().join(dir).join("debug/av-metrics-tool");
    assert!(p.exists(), "the command line tool is not built");
    p
}

pub fn c19(ctx: &mut Ctx) {
    let (tool, tool_ff) = (tool(ctx, false), tool(ctx, true));
    const RULE: &str = "runs of the tool with all four export files against the library's scores \
        for the same files (derived, longer, shorter, empty, incompatible and identical clips; file \
        names with spaces, quotes, separators); non-trivial if a file has a score and two values differ";
    let n = ctx.cases(3_000, 60_000);
    ctx.leg("reports", RULE, n, || reports(1..4), |c| check_cli(c, &tool));
    let n = ctx.cases(400, 8_000);
    ctx.leg("many-files", RULE, n, || reports(4..13), |c| check_cli(c, &tool));
    let n = ctx.cases(60, 800);
    ctx.leg(
        "crowds",
        "the same with up to 140 compared files",
        n,
        || {
            let files = prop::collection::vec(input(false), 20..140);
            (reports(1..2), files, header(space(), (16, 24)), any::<u32>())
                .prop_map(|(mut c, files, mut header, seed)| {
                    header.extra.clear();
                    c.header = header;
                    c.base.truncate(2);
                    c.names = (0..=files.len() as u32).map(|i| hash2(seed, i, 0) as u8).collect();
                    c.files = files;
                    c
                })
                .boxed()
        },
        |c| check_cli(c, &tool),
    );
    let n = ctx.cases(60, 1_500);
    ctx.leg("long-clips", RULE, n, long_clips, |c| check_cli(c, &tool));
    let n = ctx.cases(500, 10_000);
    ctx.leg(
        "ffmpeg-build",
        "the same with the tool that decodes with FFmpeg, which reads the Y4M files and losslessly \
         compressed ones",
        n,
        || with_ff(reports(1..4)),
        |c| check_cli(c, &tool_ff),
    );
}

pub fn c20(ctx: &mut Ctx) {
    let (tool, tool_ff) = (tool(ctx, false), tool(ctx, true));
    let n = ctx.cases(4_000, 80_000);
    ctx.leg(
        "options",
        "runs with a random metric, set of exports, quiet mode, frame counting, order and spelling of \
         the arguments: exactly these outputs exist, hold exactly these metrics with the library's \
         values; non-trivial if a file has a score",
        n,
        || options(false),
        |c| check_cli(c, &tool),
    );
    if pty().is_some() {
        let n = ctx.cases(1_500, 30_000);
        ctx.leg(
            "terminal",
            "the same with standard output on a pseudo terminal, where progress and frame counting are active",
            n,
            || options(true),
            |c| check_cli(c, &tool),
        );
    } else {
        ctx.assumptions.push("no pseudo terminal here: the terminal leg did not run".into());
    }
    let n = ctx.cases(500, 10_000);
    ctx.leg(
        "ffmpeg-build",
        "random options, and files that cannot be opened, with the tool that decodes with FFmpeg",
        n,
        || with_ff(prop_oneof![3 => options(false), 1 => unopenable()].boxed()),
        |c| check_cli(c, &tool_ff),
    );
    let n = ctx.cases(2_500, 40_000);
    ctx.leg(
        "unopenable",
        "one of the compared files is missing, a directory or malformed: the status is not zero; always non-trivial",
        n,
        || {
            unopenable()
                .prop_map(|mut c| {
                    if pty().is_none() {
                        c.opts.tty = false;
                    }
                    c
                })
                .boxed()
        },
        |c| check_cli(c, &tool),
    );
    let n = ctx.cases(2_500, 40_000);
    ctx.leg(
        "misuse",
        "a base that cannot be opened, reports that cannot be written (full device, also as standard output, no directory), \
         wrong usage: the status is not zero; always non-trivial",
        n,
        bad,
        |c| check_bad(c, &tool),
    );
}

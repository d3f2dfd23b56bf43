//! Stands in for the VapourSynth libraries: the functions of their C interface
//! that the decoder needs, over clips that the check describes.
//!
//! A script is either the word `standin` and the number of a clip, or the word
//! `import` and the name of a file that holds these words, or text
//! that is run with Python to learn the path of the source; then that file
//! holds these words.

use crate::pic::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, CStr, CString};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use vapoursynth_sys as vs;

/// A clip as VapourSynth describes it.
#[derive(Clone, Debug)]
pub struct Clip {
    pub family: c_int,
    pub float: bool,
    pub bits: c_int,
    pub sub: (c_int, c_int),
    pub variable_format: bool,
    /// Zero for a variable size.
    pub size: (usize, usize),
    /// Zero for a variable rate.
    pub fps: (i64, i64),
    pub frames: Vec<Raw>,
    /// Bytes after each row, a multiple of 32.
    pub gap: [usize; 3],
    /// The output that the script sets.
    pub output: c_int,
    pub alpha: bool,
    pub fails: bool,
    /// The first frame that cannot be produced; nor can those after it, or only that one.
    pub broken: Option<(usize, bool)>,
}

impl Clip {
    fn planes(&self) -> c_int {
        match self.family {
            x if x == vs::VSColorFamily::cmGray as c_int || x == vs::VSColorFamily::cmCompat as c_int => 1,
            _ => 3,
        }
    }
}

struct Output {
    clip: Arc<Clip>,
    format: Box<vs::VSFormat>,
    info: Box<vs::VSVideoInfo>,
}

// SAFETY: the pointers lead to boxes of the same object.
unsafe impl Send for Output {}
unsafe impl Sync for Output {}

#[derive(Default)]
struct Script {
    output: Option<Arc<Output>>,
    error: CString,
}

struct NodeRef(Arc<Output>);

struct FrameRef {
    out: Arc<Output>,
    dims: [(usize, usize); 3],
    strides: [usize; 3],
    data: [Vec<u8>; 3],
}

static CLIPS: Mutex<Option<HashMap<u64, Arc<Clip>>>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);

/// Makes a clip known; the text of a script that outputs it.
pub fn register(c: Clip) -> String {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    CLIPS.lock().unwrap().get_or_insert_with(HashMap::new).insert(n, Arc::new(c));
    format!("standin {n}")
}

pub fn forget(script: &str) {
    if let Some(n) = number(script) {
        CLIPS.lock().unwrap().get_or_insert_with(HashMap::new).remove(&n);
    }
}

fn number(script: &str) -> Option<u64> {
    script.strip_prefix("standin ")?.trim().parse().ok()
}

/// The functions that opened the files that scripts name.
pub static OPENED: Mutex<Option<HashMap<PathBuf, String>>> = Mutex::new(None);

pub static PYTHON_DIR: OnceLock<PathBuf> = OnceLock::new();

/// The path of the source that the script outputs.
fn run_python(script: &str) -> Result<PathBuf, String> {
    let mut child = Command::new("python3")
        .arg("-")
        .env("PYTHONPATH", PYTHON_DIR.get().expect("directory of the Python module"))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PYTHONUTF8", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("python3");
    child.stdin.take().unwrap().write_all(script.as_bytes()).expect("python3");
    let out = child.wait_with_output().expect("python3");
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).into_owned());
    }
    let v: serde_json::Value = serde_json::from_slice(&out.stdout).map_err(|e| e.to_string())?;
    if v["index"] != 0 {
        return Err("not output 0".into());
    }
    let path = PathBuf::from(v["source"].as_str().ok_or("no source")?);
    let function = v["function"].as_str().ok_or("no function")?.to_string();
    OPENED.lock().unwrap().get_or_insert_with(HashMap::new).insert(path.clone(), function);
    Ok(path)
}

fn evaluate(script: &str) -> Result<Arc<Output>, String> {
    let n = match number(script) {
        Some(n) => n,
        None => {
            let path = run_python(script)?;
            let text = std::fs::read_to_string(&path).map_err(|e| format!("{}: {e}", path.display()))?;
            number(&text).ok_or("not a video")?
        }
    };
    let clip = CLIPS.lock().unwrap().as_ref().and_then(|m| m.get(&n).cloned()).ok_or("no such clip")?;
    if clip.fails {
        return Err("the script fails".into());
    }
    let mut name = [0 as c_char; 32];
    for (a, b) in name.iter_mut().zip(b"Generated") {
        *a = *b as c_char;
    }
    let format = Box::new(vs::VSFormat {
        name,
        id: clip.family + 500 + (clip.bits * 64 + clip.sub.0 * 8 + clip.sub.1) * 2 + c_int::from(clip.float),
        colorFamily: clip.family,
        sampleType: c_int::from(clip.float),
        bitsPerSample: clip.bits,
        bytesPerSample: if clip.bits <= 8 { 1 } else if clip.bits <= 16 { 2 } else { 4 },
        subSamplingW: clip.sub.0,
        subSamplingH: clip.sub.1,
        numPlanes: clip.planes(),
    });
    let info = Box::new(vs::VSVideoInfo {
        format: if clip.variable_format { std::ptr::null() } else { &*format },
        fpsNum: clip.fps.0,
        fpsDen: clip.fps.1,
        width: clip.size.0 as c_int,
        height: clip.size.1 as c_int,
        numFrames: clip.frames.len() as c_int,
        flags: 0,
    });
    Ok(Arc::new(Output { clip, format, info }))
}

// ------------------------------------------------------------- VSScript

#[no_mangle]
extern "C" fn vsscript_init() -> c_int {
    1
}

#[no_mangle]
extern "C" fn vsscript_getApiVersion() -> c_int {
    vs::VSSCRIPT_API_VERSION
}

#[no_mangle]
unsafe extern "C" fn vsscript_createScript(handle: *mut *mut vs::VSScript) -> c_int {
    LIVE.fetch_add(1, Ordering::SeqCst);
    *handle = Box::into_raw(Box::<Script>::default()).cast();
    0
}

#[no_mangle]
unsafe extern "C" fn vsscript_freeScript(handle: *mut vs::VSScript) {
    LIVE.fetch_sub(1, Ordering::SeqCst);
    drop(Box::from_raw(handle.cast::<Script>()));
}

#[no_mangle]
unsafe extern "C" fn vsscript_evaluateScript(
    handle: *mut *mut vs::VSScript,
    script: *const c_char,
    name: *const c_char,
    flags: c_int,
) -> c_int {
    let s = &mut *(*handle).cast::<Script>();
    let mut text = CStr::from_ptr(script).to_string_lossy().into_owned();
    if let Some(other) = text.strip_prefix("import ") {
        // Relative names are looked up in the working directory, which is set
        // to that of the script only with this flag.
        let mut path = PathBuf::from(other);
        if !name.is_null() && flags & vs::VSEvalFlags::efSetWorkingDir as c_int != 0 {
            path = PathBuf::from(CStr::from_ptr(name).to_string_lossy().into_owned()).with_file_name(other);
        }
        match std::fs::read_to_string(path) {
            Ok(t) => text = t,
            Err(e) => {
                s.error = CString::new(e.to_string()).unwrap();
                return 1;
            }
        }
    }
    match evaluate(&text) {
        Ok(o) => {
            s.output = Some(o);
            0
        }
        Err(e) => {
            s.error = CString::new(e.replace('\0', "")).unwrap();
            1
        }
    }
}

#[no_mangle]
unsafe extern "C" fn vsscript_evaluateFile(
    handle: *mut *mut vs::VSScript,
    name: *const c_char,
    flags: c_int,
) -> c_int {
    let s = &mut *(*handle).cast::<Script>();
    match std::fs::read(&*CStr::from_ptr(name).to_string_lossy()).map(CString::new) {
        Ok(Ok(text)) => vsscript_evaluateScript(handle, text.as_ptr(), name, flags),
        _ => {
            s.error = CString::new("cannot read the script").unwrap();
            1
        }
    }
}

#[no_mangle]
unsafe extern "C" fn vsscript_getError(handle: *mut vs::VSScript) -> *const c_char {
    (*handle.cast::<Script>()).error.as_ptr()
}

#[no_mangle]
unsafe extern "C" fn vsscript_getOutput2(
    handle: *mut vs::VSScript,
    index: c_int,
    alpha: *mut *mut vs::VSNodeRef,
) -> *mut vs::VSNodeRef {
    if !alpha.is_null() {
        *alpha = std::ptr::null_mut();
    }
    match &(*handle.cast::<Script>()).output {
        Some(o) if o.clip.output == index => {
            if o.clip.alpha && !alpha.is_null() {
                *alpha = node(o);
            }
            node(o)
        }
        _ => std::ptr::null_mut(),
    }
}

#[no_mangle]
unsafe extern "C" fn vsscript_getOutput(handle: *mut vs::VSScript, index: c_int) -> *mut vs::VSNodeRef {
    vsscript_getOutput2(handle, index, std::ptr::null_mut())
}

#[no_mangle]
extern "C" fn vsscript_getVSApi2(_version: c_int) -> *const vs::VSAPI {
    api()
}

// The library links these, too, but the decoder has no use for them.
macro_rules! unused {
    ($($name:ident)*) => { $(
        #[no_mangle]
        extern "C" fn $name() {
            trap();
        }
    )* };
}
unused!(
    vsscript_finalize vsscript_clearOutput vsscript_getCore vsscript_getVSApi vsscript_getVariable
    vsscript_setVariable vsscript_clearVariable vsscript_clearEnvironment getVapourSynthAPI
);

extern "C" fn trap() {
    eprintln!("ERROR: a function of VapourSynth that the stand-in does not have");
    std::process::exit(3);
}

// --------------------------------------------------------- VapourSynth

fn node(o: &Arc<Output>) -> *mut vs::VSNodeRef {
    LIVE.fetch_add(1, Ordering::SeqCst);
    Box::into_raw(Box::new(NodeRef(o.clone()))).cast()
}

unsafe extern "system" fn clone_node(n: *mut vs::VSNodeRef) -> *mut vs::VSNodeRef {
    node(&(*n.cast::<NodeRef>()).0)
}

unsafe extern "system" fn free_node(n: *mut vs::VSNodeRef) {
    LIVE.fetch_sub(1, Ordering::SeqCst);
    drop(Box::from_raw(n.cast::<NodeRef>()));
}

unsafe extern "system" fn get_video_info(n: *mut vs::VSNodeRef) -> *const vs::VSVideoInfo {
    let n = &*n.cast::<NodeRef>();
    &*n.0.info
}

unsafe extern "system" fn get_frame(
    n: c_int,
    node: *mut vs::VSNodeRef,
    error: *mut c_char,
    size: c_int,
) -> *const vs::VSFrameRef {
    let o = &(*node.cast::<NodeRef>()).0;
    let c = &o.clip;
    let broken = c.broken.is_some_and(|(at, on)| n as usize == at || on && n as usize > at);
    let Some(raw) = c.frames.get(n as usize).filter(|_| !broken) else {
        if size > 0 {
            *error = 0;
        }
        return std::ptr::null();
    };
    let bytes = o.format.bytesPerSample as usize;
    let mut f = FrameRef { out: o.clone(), dims: [(0, 0); 3], strides: [0; 3], data: [vec![], vec![], vec![]] };
    for p in 0..c.planes() as usize {
        let pl = &raw.planes[p];
        let stride = (pl.w * bytes + 31) / 32 * 32 + c.gap[p];
        // Old contents in what is not part of the picture.
        let mut d: Vec<u8> = (0..stride * pl.h).map(|i| hash2(n as u32, i as u32, 5) as u8).collect();
        for y in 0..pl.h {
            for x in 0..pl.w {
                let v = pl.at(x, y).to_le_bytes();
                d[y * stride + x * bytes..][..bytes].copy_from_slice(&v[..bytes]);
            }
        }
        // Rows of two-byte samples have to be aligned.
        assert_eq!(d.as_ptr() as usize % bytes, 0);
        f.dims[p] = (pl.w, pl.h);
        f.strides[p] = stride;
        f.data[p] = d;
    }
    LIVE.fetch_add(1, Ordering::SeqCst);
    Box::into_raw(Box::new(f)).cast::<vs::VSFrameRef>()
}

unsafe extern "system" fn clone_frame(f: *const vs::VSFrameRef) -> *const vs::VSFrameRef {
    let f = frame(f);
    LIVE.fetch_add(1, Ordering::SeqCst);
    let f = FrameRef { out: f.out.clone(), dims: f.dims, strides: f.strides, data: f.data.clone() };
    Box::into_raw(Box::new(f)).cast::<vs::VSFrameRef>()
}

unsafe extern "system" fn free_frame(f: *const vs::VSFrameRef) {
    LIVE.fetch_sub(1, Ordering::SeqCst);
    let mut f = Box::from_raw(f.cast::<FrameRef>().cast_mut());
    for d in &mut f.data {
        d.iter_mut().for_each(|x| *x = 0x5a);
    }
}

unsafe fn frame<'a>(f: *const vs::VSFrameRef) -> &'a FrameRef {
    &*f.cast::<FrameRef>()
}

unsafe extern "system" fn get_frame_format(f: *const vs::VSFrameRef) -> *const vs::VSFormat {
    &*frame(f).out.format
}

unsafe extern "system" fn get_stride(f: *const vs::VSFrameRef, p: c_int) -> c_int {
    frame(f).strides[p as usize] as c_int
}

unsafe extern "system" fn get_read_ptr(f: *const vs::VSFrameRef, p: c_int) -> *const u8 {
    frame(f).data[p as usize].as_ptr()
}

unsafe extern "system" fn get_width(f: *const vs::VSFrameRef, p: c_int) -> c_int {
    frame(f).dims[p as usize].0 as c_int
}

unsafe extern "system" fn get_height(f: *const vs::VSFrameRef, p: c_int) -> c_int {
    frame(f).dims[p as usize].1 as c_int
}

fn api() -> *const vs::VSAPI {
    static API: OnceLock<usize> = OnceLock::new();
    *API.get_or_init(|| {
        let slots = std::mem::size_of::<vs::VSAPI>() / std::mem::size_of::<usize>();
        let table: &'static mut [usize] = vec![trap as *const () as usize; slots].leak();
        let a = table.as_mut_ptr().cast::<vs::VSAPI>();
        // SAFETY: the table has the size of the structure, which consists of
        // function pointers only.
        unsafe {
            (*a).cloneNodeRef = clone_node;
            (*a).cloneFrameRef = clone_frame;
            (*a).freeNode = free_node;
            (*a).freeFrame = free_frame;
            (*a).getFrame = get_frame;
            (*a).getVideoInfo = get_video_info;
            (*a).getFrameFormat = get_frame_format;
            (*a).getStride = get_stride;
            (*a).getReadPtr = get_read_ptr;
            (*a).getFrameWidth = get_width;
            (*a).getFrameHeight = get_height;
        }
        a as usize
    }) as *const vs::VSAPI
}

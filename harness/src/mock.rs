//! In-memory decoders: any clip, any timing, any fault.

use crate::pic::{hash2, Geo, Layout, Raw};
use crate::run::{INTENTIONAL, STUCK};
use av_metrics::video::decode::{Decoder, Rational, VideoDetails};
use av_metrics::video::{ChromaSamplePosition, Frame, Pixel};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone)]
pub struct Mock {
    pub geo: Geo,
    pub frames: Arc<Vec<Raw>>,
    pub layout: Layout,
    /// Seed of layouts that change from frame to frame, or 0.
    pub vary: u32,
    pub pos: usize,
    /// Calls of read_video_frame so far, shared with the test.
    pub reads: Arc<AtomicUsize>,
    /// Microseconds to wait before the i-th read.
    pub delays: Vec<u32>,
    pub panic_at: Option<usize>,
    /// Set if the decoder was still read long after its end.
    pub overrun: Arc<AtomicUsize>,
}

impl Mock {
    pub fn new(geo: Geo, frames: Arc<Vec<Raw>>) -> Mock {
        Mock {
            geo,
            frames,
            layout: Layout::default(),
            vary: 0,
            pos: 0,
            reads: Arc::default(),
            delays: vec![],
            panic_at: None,
            overrun: Arc::default(),
        }
    }
}

impl Decoder for Mock {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        let n = self.reads.fetch_add(1, Ordering::SeqCst);
        if let Some(d) = self.delays.get(n % self.delays.len().max(1)) {
            match *d {
                0 => {}
                d if d < 20 => std::thread::yield_now(),
                d => pause(d),
            }
        }
        if self.panic_at == Some(n) {
            std::panic::panic_any(INTENTIONAL);
        }
        if n > self.frames.len() + 200 {
            // Whoever reads on will not stop by itself.
            self.overrun.store(n, Ordering::SeqCst);
            std::panic::panic_any(INTENTIONAL);
        }
        let f = self.frames.get(self.pos)?;
        self.pos += 1;
        let l = match self.vary {
            0 => self.layout,
            s => {
                // Every frame is laid out in its own way.
                let h = hash2(s, self.pos as u32, 5);
                Layout {
                    xpad: (h >> 20) as u8 % 24,
                    left: h as u8 % 4,
                    top: (h >> 8) as u8 % 3,
                    right: (h >> 12) as u8 % 30,
                    fill: h | 1,
                    ..self.layout
                }
            }
        };
        Some(f.frame::<T>(&l))
    }
    fn get_bit_depth(&self) -> usize {
        self.geo.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.geo.w,
            height: self.geo.h,
            bit_depth: self.geo.depth,
            chroma_sampling: self.geo.cs.lib(),
            chroma_sample_position: ChromaSamplePosition::Unknown,
            time_base: Rational::new(1, 30),
            luma_padding: 0,
        }
    }
}

/// Sleeps that many microseconds in pieces that the watch below can see.
pub fn pause(micros: u32) {
    const PIECE: u32 = 50_000;
    for _ in 0..micros / PIECE {
        std::thread::sleep(Duration::from_micros(PIECE as u64));
    }
    std::thread::sleep(Duration::from_micros((micros % PIECE) as u64));
}

// ------------------------------------------------------------ dead-lock watch

static PENDING: Mutex<BTreeMap<usize, Sender<Result<(), ()>>>> = Mutex::new(BTreeMap::new());
static NEXT: AtomicUsize = AtomicUsize::new(0);
static WATCHER: std::sync::Once = std::sync::Once::new();

/// Sum of context switches of all other threads, and whether all of them sleep.
fn activity(me: &str) -> (u64, bool, u64) {
    let mut switches = 0;
    let mut sleeping = true;
    let mut threads = 0;
    if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
        for t in dir.flatten() {
            let tid = t.file_name().to_string_lossy().into_owned();
            if tid == me {
                continue;
            }
            threads += 1;
            let Ok(s) = std::fs::read_to_string(t.path().join("status")) else {
                sleeping = false;
                continue;
            };
            for l in s.lines() {
                if let Some(v) = l.strip_prefix("State:") {
                    sleeping &= v.trim().starts_with('S');
                } else if l.contains("ctxt_switches:") {
                    switches += l
                        .rsplit(char::is_whitespace)
                        .next()
                        .and_then(|v| v.parse::<u64>().ok())
                        .unwrap_or(0);
                }
            }
        }
    }
    (switches, sleeping, threads)
}

fn start_watcher() {
    WATCHER.call_once(|| {
        std::thread::spawn(|| {
            let me = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().map(|s| s.to_string_lossy().into_owned()))
                .unwrap_or_default();
            let mut last = (0, false, 0);
            let mut quiet = 0;
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let now = activity(&me);
                // No delay of the test decoders is as long as one period, so
                // a thread that only sleeps would have been switched to.
                if now.1 && now == last && !PENDING.lock().unwrap().is_empty() {
                    quiet += 1;
                } else {
                    quiet = 0;
                }
                last = now;
                if quiet >= 14 {
                    STUCK.store(true, Ordering::SeqCst);
                    let mut p = PENDING.lock().unwrap();
                    for (_, s) in std::mem::take(&mut *p) {
                        let _ = s.send(Err(()));
                    }
                    quiet = 0;
                }
            }
        });
    });
}

/// Runs `f` on a thread of its own.  If all threads of the process are blocked
/// for good while it has not returned, it is abandoned: `Err`.
pub fn watched<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Result<R, String> {
    start_watcher();
    let (tx, rx) = channel();
    let key = NEXT.fetch_add(1, Ordering::SeqCst);
    PENDING.lock().unwrap().insert(key, tx.clone());
    let result = Arc::new(Mutex::new(None));
    let r2 = result.clone();
    std::thread::spawn(move || {
        let r = f();
        *r2.lock().unwrap() = Some(r);
        let _ = tx.send(Ok(()));
    });
    let end = rx.recv().unwrap_or(Err(()));
    PENDING.lock().unwrap().remove(&key);
    match end {
        Ok(()) => Ok(result.lock().unwrap().take().expect("no result")),
        Err(()) => Err("the call never returns: every thread of the process waits for another one".into()),
    }
}

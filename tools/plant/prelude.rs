#![allow(dead_code, unused_imports)]
use av_metrics::video::decode::*;
use av_metrics::video::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn plane<T: Pixel>(w: usize, h: usize, d: (usize, usize), pad: (usize, usize), f: impl Fn(usize, usize) -> u16) -> Plane<T> {
    let mut p: Plane<T> = Plane::new(w, h, d.0, d.1, pad.0, pad.1);
    let stride = p.cfg.stride;
    let data = p.data_origin_mut();
    for y in 0..h {
        for x in 0..w {
            data[y * stride + x] = T::cast_from(f(x, y));
        }
    }
    p
}

fn frame<T: Pixel>(w: usize, h: usize, cs: ChromaSampling, f: impl Fn(usize, usize, usize) -> u16) -> Frame<T> {
    padded(w, h, cs, (0, 0), f)
}

fn padded<T: Pixel>(w: usize, h: usize, cs: ChromaSampling, pad: (usize, usize), f: impl Fn(usize, usize, usize) -> u16) -> Frame<T> {
    let d = cs.get_decimation().unwrap_or((0, 0));
    let (cw, ch) = cs.get_chroma_dimensions(w, h);
    Frame {
        planes: [
            plane(w, h, (0, 0), pad, |x, y| f(0, x, y)),
            plane(cw, ch, d, pad, |x, y| f(1, x, y)),
            plane(cw, ch, d, pad, |x, y| f(2, x, y)),
        ],
    }
}

/// Some fixed but irregular picture.
fn noise(seed: u64, p: usize, x: usize, y: usize) -> u64 {
    let mut z = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ ((p as u64) << 40 | (y as u64) << 20 | x as u64);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// A clip in memory, with a hook that is called before every read.
struct Clip<H: FnMut(usize) + Send> {
    w: usize,
    h: usize,
    depth: usize,
    cs: ChromaSampling,
    frames: usize,
    pos: usize,
    pic: fn(usize, usize, usize, usize) -> u16,
    hook: H,
}

impl<H: FnMut(usize) + Send> Decoder for Clip<H> {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        (self.hook)(self.pos);
        if self.pos >= self.frames {
            return None;
        }
        let n = self.pos;
        self.pos += 1;
        let pic = self.pic;
        Some(frame(self.w, self.h, self.cs, |p, x, y| pic(n, p, x, y)))
    }
    fn get_bit_depth(&self) -> usize {
        self.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails { width: self.w, height: self.h, bit_depth: self.depth, chroma_sampling: self.cs, ..Default::default() }
    }
}

fn clip(w: usize, h: usize, cs: ChromaSampling, frames: usize, pic: fn(usize, usize, usize, usize) -> u16) -> Clip<fn(usize)> {
    Clip { w, h, depth: 8, cs, frames, pos: 0, pic, hook: |_| () }
}

fn near(a: f64, b: f64, tol: f64, what: &str) {
    println!("{what}: {a} expected {b}");
    assert!((a - b).abs() <= tol, "{what}: {a}, expected {b}");
}

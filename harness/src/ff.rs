//! Writes videos with libav and reads them with an own decoding loop.

use crate::pic::*;
use ffmpeg_the_third::ffi::*;
use serde::{Deserialize, Serialize};
use std::ffi::{CStr, CString};
use std::path::Path;
use std::ptr::{null, null_mut};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Audio {
    None,
    /// The audio stream is the first in the container.
    First,
    Second,
}

/// When the frames are shown.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Times {
    Regular,
    /// The first frame is later than zero.
    Late(u8),
    /// Frames are missing from the raster.
    Gaps(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Recipe {
    pub codec: String,
    pub opts: Vec<(String, String)>,
    pub container: String,
    /// Full-range ("yuvj") pixel format.
    pub jpeg: bool,
    pub gop: u8,
    pub bframes: u8,
    pub audio: Audio,
    /// A second, smaller video stream.
    pub second: bool,
    /// It is not behind but ahead of the first; only that is marked as the default.
    #[serde(default)]
    pub ahead: bool,
    pub times: Times,
    pub rate: (u32, u32),
}

pub fn init() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        // SAFETY: a plain setting.
        unsafe { av_log_set_level(AV_LOG_QUIET) };
    });
}

fn pix_name(g: Geo, jpeg: bool) -> Option<String> {
    let s = match g.cs {
        Cs::C420 => "420",
        Cs::C422 => "422",
        Cs::C444 => "444",
        Cs::C400 => return None,
    };
    Some(match (g.depth, jpeg) {
        (8, false) => format!("yuv{s}p"),
        (8, true) => format!("yuvj{s}p"),
        (d, _) => format!("yuv{s}p{d}le"),
    })
}

fn pix(g: Geo, jpeg: bool) -> Option<AVPixelFormat> {
    let n = CString::new(pix_name(g, jpeg)?).unwrap();
    // SAFETY: the name is a valid string.
    let f = unsafe { av_get_pix_fmt(n.as_ptr()) };
    (f != AVPixelFormat::AV_PIX_FMT_NONE).then_some(f)
}

fn err(what: &str, code: i32) -> String {
    let mut b = [0i8; 128];
    // SAFETY: the buffer has the stated size.
    unsafe {
        av_strerror(code, b.as_mut_ptr(), b.len());
        format!("{what}: {}", CStr::from_ptr(b.as_ptr()).to_string_lossy())
    }
}

fn ok(what: &str, code: i32) -> Result<i32, String> {
    if code < 0 {
        Err(err(what, code))
    } else {
        Ok(code)
    }
}

struct Writer {
    oc: *mut AVFormatContext,
    encs: Vec<*mut AVCodecContext>,
    pkt: *mut AVPacket,
}

impl Drop for Writer {
    fn drop(&mut self) {
        // SAFETY: all pointers are owned by this object or null.
        unsafe {
            for e in &mut self.encs {
                avcodec_free_context(e);
            }
            av_packet_free(&mut self.pkt);
            if !self.oc.is_null() {
                if !(*self.oc).pb.is_null() {
                    avio_closep(&mut (*self.oc).pb);
                }
                avformat_free_context(self.oc);
            }
        }
    }
}

/// The time of frame `i` on the raster of the frame rate.
fn time(t: Times, i: usize) -> i64 {
    match t {
        Times::Regular => i as i64,
        Times::Late(n) => i as i64 + n as i64,
        Times::Gaps(seed) => (0..i).map(|k| 1 + i64::from(hash2(seed, k as u32, 1) % 4 == 0) * 2).sum(),
    }
}

unsafe fn make_frame(g: Geo, f: AVPixelFormat, r: &Raw, pts: i64) -> Result<*mut AVFrame, String> {
    let mut fr = av_frame_alloc();
    (*fr).width = g.w as i32;
    (*fr).height = g.h as i32;
    (*fr).format = f as i32;
    (*fr).pts = pts;
    let c = av_frame_get_buffer(fr, 0);
    if c < 0 {
        av_frame_free(&mut fr);
        return Err(err("frame", c));
    }
    let bytes = 1 + usize::from(g.depth > 8);
    for p in 0..3 {
        let pl = &r.planes[p];
        let stride = (*fr).linesize[p] as usize;
        for y in 0..pl.h {
            let row = (*fr).data[p].add(y * stride);
            for x in 0..pl.w {
                let v = pl.at(x, y);
                if bytes == 1 {
                    *row.add(x) = v as u8;
                } else {
                    *row.add(2 * x) = v as u8;
                    *row.add(2 * x + 1) = (v >> 8) as u8;
                }
            }
        }
    }
    Ok(fr)
}

impl Writer {
    /// Opens an encoder; its index.
    unsafe fn open(&mut self, r: &Recipe, g: Geo, f: AVPixelFormat, in_band: bool) -> Result<usize, String> {
        let name = CString::new(r.codec.as_str()).unwrap();
        let codec = avcodec_find_encoder_by_name(name.as_ptr());
        if codec.is_null() {
            return Err(format!("no encoder {}", r.codec));
        }
        let c = avcodec_alloc_context3(codec);
        self.encs.push(c);
        (*c).width = g.w as i32;
        (*c).height = g.h as i32;
        (*c).pix_fmt = f;
        (*c).time_base = AVRational { num: r.rate.1 as i32, den: r.rate.0 as i32 };
        (*c).framerate = AVRational { num: r.rate.0 as i32, den: r.rate.1 as i32 };
        (*c).gop_size = 1 + r.gop as i32;
        (*c).max_b_frames = r.bframes as i32;
        (*c).thread_count = 1;
        (*c).strict_std_compliance = -2;
        if r.jpeg {
            (*c).color_range = AVColorRange::AVCOL_RANGE_JPEG;
        }
        if !in_band && (*(*self.oc).oformat).flags & AVFMT_GLOBALHEADER as i32 != 0 {
            (*c).flags |= AV_CODEC_FLAG_GLOBAL_HEADER as i32;
        }
        let mut d: *mut AVDictionary = null_mut();
        for (k, v) in &r.opts {
            let (k, v) = (CString::new(k.as_str()).unwrap(), CString::new(v.as_str()).unwrap());
            av_dict_set(&mut d, k.as_ptr(), v.as_ptr(), 0);
        }
        let e = avcodec_open2(c, codec, &mut d);
        let left = av_dict_count(d);
        av_dict_free(&mut d);
        ok("encoder", e)?;
        if left > 0 {
            return Err("encoder: unknown options".into());
        }
        Ok(self.encs.len() - 1)
    }

    unsafe fn add_video(
        &mut self,
        r: &Recipe,
        g: Geo,
        f: AVPixelFormat,
        secondary: bool,
        in_band: bool,
    ) -> Result<i32, String> {
        let i = self.open(r, g, f, in_band)?;
        let c = self.encs[i];
        let st = avformat_new_stream(self.oc, null());
        if st.is_null() {
            return Err("no stream".into());
        }
        ok("parameters", avcodec_parameters_from_context((*st).codecpar, c))?;
        (*st).time_base = (*c).time_base;
        (*st).avg_frame_rate = (*c).framerate;
        if !secondary {
            (*st).disposition |= AV_DISPOSITION_DEFAULT as i32;
        }
        Ok((*st).index)
    }

    unsafe fn add_audio(&mut self) -> Result<i32, String> {
        let st = avformat_new_stream(self.oc, null());
        if st.is_null() {
            return Err("no stream".into());
        }
        let p = (*st).codecpar;
        (*p).codec_type = AVMediaType::AVMEDIA_TYPE_AUDIO;
        (*p).codec_id = AVCodecID::AV_CODEC_ID_PCM_S16LE;
        (*p).format = AVSampleFormat::AV_SAMPLE_FMT_S16 as i32;
        (*p).sample_rate = 8000;
        (*p).bits_per_coded_sample = 16;
        (*p).block_align = 2;
        (*p).bit_rate = 128_000;
        av_channel_layout_default(&mut (*p).ch_layout, 1);
        (*st).time_base = AVRational { num: 1, den: 8000 };
        Ok((*st).index)
    }

    /// `None` for the frame drains the encoder.
    unsafe fn encode(&mut self, enc: usize, stream: i32, frame: *mut AVFrame) -> Result<(), String> {
        let c = self.encs[enc];
        ok("send frame", avcodec_send_frame(c, frame))?;
        loop {
            let e = avcodec_receive_packet(c, self.pkt);
            if e == AVERROR(libc::EAGAIN) || e == AVERROR_EOF {
                return Ok(());
            }
            ok("receive packet", e)?;
            let st = *(*self.oc).streams.add(stream as usize);
            if (*self.pkt).duration == 0 {
                (*self.pkt).duration = 1;
            }
            av_packet_rescale_ts(self.pkt, (*c).time_base, (*st).time_base);
            (*self.pkt).stream_index = stream;
            ok("write", av_interleaved_write_frame(self.oc, self.pkt))?;
        }
    }
}

/// Encodes the frames, with a new encoder for the same stream whenever their
/// size changes; an error means that the recipe is not possible.
pub fn write(path: &Path, r: &Recipe, frames: &[Raw]) -> Result<(), String> {
    init();
    let g = frames.first().ok_or("no frames")?.geo;
    let f = pix(g, r.jpeg).ok_or("no pixel format")?;
    // SAFETY: the API is used as documented, every result is checked.
    unsafe {
        let mut w = Writer { oc: null_mut(), encs: vec![], pkt: av_packet_alloc() };
        let (cf, cp) = (
            CString::new(r.container.as_str()).unwrap(),
            CString::new(path.to_str().unwrap()).unwrap(),
        );
        ok(
            "container",
            avformat_alloc_output_context2(&mut w.oc, null(), cf.as_ptr(), cp.as_ptr()),
        )?;
        let mut audio = None;
        if r.audio == Audio::First {
            audio = Some(w.add_audio()?);
        }
        let in_band = frames.iter().any(|x| x.geo != g);
        let mut second = None;
        let g2 = Geo { w: 16, h: 16, ..g };
        if r.second && r.ahead {
            second = Some((w.encs.len(), w.add_video(r, g2, f, true, in_band)?));
        }
        let mut current = (g, w.encs.len());
        let video = w.add_video(r, g, f, false, in_band)?;
        if r.second && !r.ahead {
            second = Some((w.encs.len(), w.add_video(r, g2, f, true, in_band)?));
        }
        if r.audio == Audio::Second {
            audio = Some(w.add_audio()?);
        }
        ok("open", avio_open(&mut (*w.oc).pb, cp.as_ptr(), AVIO_FLAG_WRITE as i32))?;
        ok("header", avformat_write_header(w.oc, null_mut()))?;
        let mut sent = 0i64;
        for (i, raw) in frames.iter().enumerate() {
            let t = time(r.times, i);
            if let Some(a) = audio {
                // Audio up to the time of the frame.
                let until = t * 8000 * r.rate.1 as i64 / r.rate.0 as i64;
                while sent < until && sent < 80_000 {
                    let n = (until - sent).min(800);
                    ok("packet", av_new_packet(w.pkt, 2 * n as i32))?;
                    for k in 0..2 * n as usize {
                        *(*w.pkt).data.add(k) = hash2(7, k as u32, sent as u32) as u8;
                    }
                    (*w.pkt).pts = sent;
                    (*w.pkt).dts = sent;
                    (*w.pkt).duration = n;
                    let st = *(*w.oc).streams.add(a as usize);
                    av_packet_rescale_ts(w.pkt, AVRational { num: 1, den: 8000 }, (*st).time_base);
                    (*w.pkt).stream_index = a;
                    ok("write", av_interleaved_write_frame(w.oc, w.pkt))?;
                    sent += n;
                }
            }
            if raw.geo != current.0 {
                w.encode(current.1, video, null_mut())?;
                let f = pix(raw.geo, r.jpeg).ok_or("no pixel format")?;
                current = (raw.geo, w.open(r, raw.geo, f, in_band)?);
            }
            let f = pix(raw.geo, r.jpeg).ok_or("no pixel format")?;
            let mut fr = make_frame(raw.geo, f, raw, t)?;
            let e = w.encode(current.1, video, fr);
            av_frame_free(&mut fr);
            e?;
            if let Some((enc, s)) = second {
                let other = Raw::render(g2, &[Pat::Flat((i * 1000) as u16); 3], &[]);
                let mut fr = make_frame(g2, f, &other, t)?;
                let e = w.encode(enc, s, fr);
                av_frame_free(&mut fr);
                e?;
            }
        }
        w.encode(current.1, video, null_mut())?;
        if let Some((enc, s)) = second {
            w.encode(enc, s, null_mut())?;
        }
        ok("trailer", av_write_trailer(w.oc))?;
    }
    Ok(())
}

struct Reader {
    ic: *mut AVFormatContext,
    dec: *mut AVCodecContext,
    pkt: *mut AVPacket,
    fr: *mut AVFrame,
}

impl Drop for Reader {
    fn drop(&mut self) {
        // SAFETY: all pointers are owned by this object or null.
        unsafe {
            avcodec_free_context(&mut self.dec);
            av_packet_free(&mut self.pkt);
            av_frame_free(&mut self.fr);
            avformat_close_input(&mut self.ic);
        }
    }
}

/// Decodes the best video stream of the file with the loop that the API's
/// documentation describes.  Frames in another format are an error, or the end.
pub fn read(path: &Path, g: Geo, jpeg: bool, until_change: bool) -> Result<Vec<Raw>, String> {
    init();
    let want = pix(g, jpeg).ok_or("no pixel format")?;
    // SAFETY: the API is used as documented, every result is checked.
    unsafe {
        let mut r = Reader {
            ic: null_mut(),
            dec: null_mut(),
            pkt: av_packet_alloc(),
            fr: av_frame_alloc(),
        };
        let cp = CString::new(path.to_str().unwrap()).unwrap();
        ok("open", avformat_open_input(&mut r.ic, cp.as_ptr(), null_mut(), null_mut()))?;
        ok("stream info", avformat_find_stream_info(r.ic, null_mut()))?;
        let s = ok(
            "stream",
            av_find_best_stream(r.ic, AVMediaType::AVMEDIA_TYPE_VIDEO, -1, -1, null_mut(), 0),
        )?;
        let par = (**(*r.ic).streams.add(s as usize)).codecpar;
        if ((*par).width, (*par).height) != (g.w as i32, g.h as i32) {
            return Err(format!("own decoding: the stream is {}x{}", (*par).width, (*par).height));
        }
        if until_change && (*par).format != want as i32 {
            return Err("own decoding: the stream is declared in another format".into());
        }
        let codec = avcodec_find_decoder((*par).codec_id);
        if codec.is_null() {
            return Err("no decoder".into());
        }
        r.dec = avcodec_alloc_context3(codec);
        ok("parameters", avcodec_parameters_to_context(r.dec, par))?;
        (*r.dec).thread_count = 1;
        ok("decoder", avcodec_open2(r.dec, codec, null_mut()))?;
        let mut out = vec![];
        let mut drain = false;
        loop {
            // Take everything there is.
            loop {
                let e = avcodec_receive_frame(r.dec, r.fr);
                if e == AVERROR_EOF {
                    return Ok(out);
                }
                if e == AVERROR(libc::EAGAIN) {
                    break;
                }
                ok("receive frame", e)?;
                let f = &*r.fr;
                if until_change && f.format != want as i32 {
                    return Ok(out);
                }
                if f.format != want as i32 || f.width < 1 || f.height < 1 {
                    return Err(format!("own decoding: format {}, not {}", f.format, want as i32));
                }
                let g = Geo { w: f.width as usize, h: f.height as usize, ..g };
                let mut raw = Raw::render(g, &[Pat::Flat(0); 3], &[]);
                for p in 0..3 {
                    let stride = f.linesize[p] as isize;
                    let pl = &mut raw.planes[p];
                    for y in 0..pl.h {
                        let row = f.data[p].offset(y as isize * stride);
                        for x in 0..pl.w {
                            pl.d[y * pl.w + x] = if g.depth == 8 {
                                *row.add(x) as u16
                            } else {
                                *row.add(2 * x) as u16 | (*row.add(2 * x + 1) as u16) << 8
                            };
                        }
                    }
                }
                out.push(raw);
                av_frame_unref(r.fr);
                if out.len() > 5000 {
                    return Err("own decoding: too many frames".into());
                }
            }
            if drain {
                return Err("own decoding: no end".into());
            }
            loop {
                let e = av_read_frame(r.ic, r.pkt);
                if e == AVERROR_EOF {
                    drain = true;
                    ok("drain", avcodec_send_packet(r.dec, null()))?;
                    break;
                }
                ok("read", e)?;
                let mine = (*r.pkt).stream_index == s && (*r.pkt).size > 0;
                let e = if mine { avcodec_send_packet(r.dec, r.pkt) } else { 0 };
                av_packet_unref(r.pkt);
                ok("send packet", e)?;
                if mine {
                    break;
                }
            }
        }
    }
}


/// Reads and decodes the file to its end, whatever errors there are on the way.
pub fn drain(path: &Path) -> Result<(), String> {
    init();
    // SAFETY: the API is used as documented.
    unsafe {
        let mut r = Reader {
            ic: null_mut(),
            dec: null_mut(),
            pkt: av_packet_alloc(),
            fr: av_frame_alloc(),
        };
        let cp = CString::new(path.to_str().unwrap()).unwrap();
        ok("open", avformat_open_input(&mut r.ic, cp.as_ptr(), null_mut(), null_mut()))?;
        ok("stream info", avformat_find_stream_info(r.ic, null_mut()))?;
        let s = ok(
            "stream",
            av_find_best_stream(r.ic, AVMediaType::AVMEDIA_TYPE_VIDEO, -1, -1, null_mut(), 0),
        )?;
        let par = (**(*r.ic).streams.add(s as usize)).codecpar;
        let codec = avcodec_find_decoder((*par).codec_id);
        if codec.is_null() {
            return Err("no decoder".into());
        }
        r.dec = avcodec_alloc_context3(codec);
        ok("parameters", avcodec_parameters_to_context(r.dec, par))?;
        (*r.dec).thread_count = 1;
        ok("decoder", avcodec_open2(r.dec, codec, null_mut()))?;
        let mut errors = 0;
        loop {
            let e = av_read_frame(r.ic, r.pkt);
            if e == AVERROR_EOF {
                return Ok(());
            }
            if e < 0 {
                // An error that stays is an end, too.
                errors += 1;
                if errors > 1000 {
                    return Ok(());
                }
                continue;
            }
            if (*r.pkt).stream_index == s && (*r.pkt).size > 0 && avcodec_send_packet(r.dec, r.pkt) >= 0 {
                while avcodec_receive_frame(r.dec, r.fr) >= 0 {}
            }
            av_packet_unref(r.pkt);
        }
    }
}

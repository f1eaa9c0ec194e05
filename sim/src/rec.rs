//! Recording what the code under test delivered, and comparing it with what was expected.

use crate::gifgen::{ExpFrame, Model};
use crate::sim::{hash_bytes, violation, Check, Sim};
use crate::world::SimReader;
use gif::{ColorOutput, DecodeOptions, Decoder, DecodingError, DisposalMethod, Frame, MemoryLimit, Repeat};
use std::io;

#[derive(Clone, Debug, PartialEq)]
pub struct FrameRec {
    pub delay: u16,
    pub dispose: DisposalMethod,
    pub transparent: Option<u8>,
    pub user_input: bool,
    pub top: u16,
    pub left: u16,
    pub w: u16,
    pub h: u16,
    pub interlaced: bool,
    pub palette: Option<Vec<u8>>,
    pub buffer: Vec<u8>,
}

impl FrameRec {
    pub fn of(f: &Frame<'_>) -> Self {
        FrameRec {
            delay: f.delay,
            dispose: f.dispose,
            transparent: f.transparent,
            user_input: f.needs_user_input,
            top: f.top,
            left: f.left,
            w: f.width,
            h: f.height,
            interlaced: f.interlaced,
            palette: f.palette.clone(),
            buffer: f.buffer.to_vec(),
        }
    }
    pub fn meta_eq(&self, o: &FrameRec) -> bool {
        let a = (self.delay, self.dispose, self.transparent, self.user_input, self.top, self.left, self.w, self.h, &self.palette);
        let b = (o.delay, o.dispose, o.transparent, o.user_input, o.top, o.left, o.w, o.h, &o.palette);
        a == b
    }
    pub fn short(&self) -> String {
        format!(
            "{}x{}+{}+{} delay={} disp={:?} t={:?} ui={} il={} pal={:?} buf={}#{:08x}",
            self.w,
            self.h,
            self.left,
            self.top,
            self.delay,
            self.dispose,
            self.transparent,
            self.user_input,
            self.interlaced,
            self.palette.as_ref().map(|p| p.len()),
            self.buffer.len(),
            hash_bytes(&self.buffer) as u32
        )
    }
}

pub fn repeat_u(r: Repeat) -> u64 {
    match r {
        Repeat::Infinite => 1 << 20,
        Repeat::Finite(n) => u64::from(n),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub w: u16,
    pub h: u16,
    pub bg: Option<usize>,
    pub global: Option<Vec<u8>>,
    pub repeat: Repeat,
}

impl Info {
    pub fn of<R: io::Read>(d: &Decoder<R>) -> Info {
        Info { w: d.width(), h: d.height(), bg: d.bg_color(), global: d.global_palette().map(<[u8]>::to_vec), repeat: d.repeat() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// orderly end of the image
    Done,
    Format(String),
    Io(io::ErrorKind, String),
    /// the harness stopped asking
    Stopped,
}

impl End {
    pub fn of(e: &DecodingError) -> End {
        match e {
            DecodingError::Io(e) => End::Io(e.kind(), e.to_string()),
            DecodingError::Format(e) => End::Format(e.to_string()),
        }
    }
    /// Equality up to the wording of messages.
    pub fn same_kind(&self, o: &End) -> bool {
        match (self, o) {
            (End::Format(_), End::Format(_)) => true,
            (End::Io(a, _), End::Io(b, _)) => a == b,
            (a, b) => a == b,
        }
    }
    pub fn is_eof(&self) -> bool {
        matches!(self, End::Io(io::ErrorKind::UnexpectedEof, _))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub info: Option<Info>,
    /// the same, asked for at the end (except by the iterator)
    pub info_end: Option<Info>,
    pub frames: Vec<FrameRec>,
    pub end: End,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub rgba: bool,
    pub skip: bool,
    pub consistency: bool,
    pub end_code: bool,
    pub unknown: bool,
    pub limit: Option<u64>,
}

/// As a limit: `MemoryLimit::Unlimited`.
pub const UNLIMITED: u64 = u64::MAX;

/// Mostly the default limit, sometimes none or one that no generated stream comes near.
pub fn wide_limit(sim: &Sim) -> Option<u64> {
    match sim.c(8) {
        5 => Some(1 << 33),
        6 | 7 => Some(UNLIMITED),
        _ => None,
    }
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { rgba: false, skip: false, consistency: false, end_code: false, unknown: false, limit: None }
    }
}

impl Cfg {
    /// Opens a decoder, also in the short way if the options are the default ones.
    pub fn open<R: std::io::Read>(&self, r: R) -> Result<gif::Decoder<R>, gif::DecodingError> {
        let plain = *self == Cfg::default() && OPTION_STYLE.with(|s| s.get() >> 30 & 1 == 1);
        if plain {
            gif::Decoder::new(r)
        } else {
            self.options().read_info(r)
        }
    }

    /// The options, set in an order and by detours that must make no difference.
    pub fn options(&self) -> DecodeOptions {
        let k = OPTION_STYLE.with(|s| {
            let k = s.get();
            s.set(if k == 0 { 0 } else { crate::rng::mix(k) | 1 });
            k
        });
        let d = Cfg::default();
        let mut o = match k >> 60 {
            0..=7 => DecodeOptions::new(),
            8..=11 => DecodeOptions::default(),
            _ => gif::Decoder::<&[u8]>::build(),
        };
        for step in 0..6 {
            let which = (step + (k >> 40) as usize) % 6;
            let which = if k >> 50 & 1 == 1 { 5 - which } else { which };
            let detour = k >> (10 + which) & 3 == 3;
            let default = k >> (20 + which) & 1 == 1;
            let mut bit = |v: bool, d: bool, set: fn(&mut DecodeOptions, bool)| {
                if detour {
                    set(&mut o, !v);
                } else if default && v == d {
                    return;
                }
                set(&mut o, v);
            };
            match which {
                0 => bit(self.rgba, d.rgba, |o, v| o.set_color_output(if v { ColorOutput::RGBA } else { ColorOutput::Indexed })),
                1 => bit(self.skip, d.skip, DecodeOptions::skip_frame_decoding),
                2 => bit(self.consistency, d.consistency, DecodeOptions::check_frame_consistency),
                3 => bit(self.end_code, d.end_code, DecodeOptions::check_lzw_end_code),
                4 => bit(self.unknown, d.unknown, DecodeOptions::allow_unknown_blocks),
                _ => match self.limit.map(std::num::NonZeroU64::new) {
                    None => {}
                    Some(l) => {
                        if detour {
                            o.set_memory_limit(MemoryLimit::Bytes(std::num::NonZeroU64::MIN));
                        }
                        o.set_memory_limit(match l {
                            Some(l) if l.get() != UNLIMITED => MemoryLimit::Bytes(l),
                            _ => MemoryLimit::Unlimited,
                        });
                    }
                },
            }
        }
        if k >> 51 & 3 == 3 {
            o = o.clone();
        }
        o
    }
}

thread_local! {
    /// how the next options are set; 0 is the plain way
    static OPTION_STYLE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Called at the beginning of each run.
pub fn option_style(k: u64) {
    OPTION_STYLE.with(|s| s.set(if k == 0 { 0 } else { crate::rng::mix(k) | 1 }));
}

/// How a property drains a decoder to the end.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Drain {
    ReadNextFrame,
    Iterator,
    InfoThenBuffer,
}

/// No larger buffer is offered to `read_into_buffer`.
pub const CALLER_BUFFER: usize = 1 << 26;

pub const MAX_FRAMES: usize = 100_000;

/// Decodes everything the stream offers, in one way, without retrying.
pub fn drain(sim: &Sim, cfg: &Cfg, reader: SimReader, how: Drain) -> Outcome {
    let mut out = Outcome { info: None, info_end: None, frames: Vec::new(), end: End::Stopped };
    let mut dec = match cfg.open(reader) {
        Ok(d) => d,
        Err(e) => {
            out.end = End::of(&e);
            sim.ev("open-err", 0, 0);
            return out;
        }
    };
    out.info = Some(Info::of(&dec));
    sim.ev("open", u64::from(dec.width()), u64::from(dec.height()));
    match how {
        Drain::ReadNextFrame => {
            loop {
                if out.frames.len() > MAX_FRAMES {
                    break;
                }
                match dec.read_next_frame() {
                    Ok(Some(f)) => {
                        out.frames.push(FrameRec::of(f));
                        sim.ev("frame", out.frames.len() as u64, hash_bytes(&f.buffer));
                    }
                    Ok(None) => {
                        out.end = End::Done;
                        break;
                    }
                    Err(e) => {
                        out.end = End::of(&e);
                        break;
                    }
                }
            }
            out.info_end = Some(Info::of(&dec));
        }
        Drain::Iterator => {
            let mut it = dec.into_iter();
            loop {
                if out.frames.len() > MAX_FRAMES {
                    break;
                }
                match it.next() {
                    Some(Ok(f)) => {
                        out.frames.push(FrameRec::of(&f));
                        sim.ev("frame", out.frames.len() as u64, hash_bytes(&f.buffer));
                    }
                    None => {
                        out.end = End::Done;
                        break;
                    }
                    Some(Err(e)) => {
                        out.end = End::of(&e);
                        break;
                    }
                }
            }
        }
        Drain::InfoThenBuffer => {
            loop {
                if out.frames.len() > MAX_FRAMES {
                    break;
                }
                let mut rec = match dec.next_frame_info() {
                    Ok(Some(f)) => FrameRec::of(f),
                    Ok(None) => {
                        out.end = End::Done;
                        break;
                    }
                    Err(e) => {
                        out.end = End::of(&e);
                        break;
                    }
                };
                // the caller provides this buffer, whatever size the stream asks for
                if dec.buffer_size() > CALLER_BUFFER {
                    sim.ev("too-large", dec.buffer_size() as u64, 0);
                    break;
                }
                let mut buf = vec![0; dec.buffer_size()];
                match dec.read_into_buffer(&mut buf) {
                    Ok(()) => {
                        rec.buffer = buf;
                        rec.interlaced = false;
                        sim.ev("frame", out.frames.len() as u64 + 1, hash_bytes(&rec.buffer));
                        out.frames.push(rec);
                    }
                    Err(e) => {
                        out.end = End::of(&e);
                        break;
                    }
                }
            }
            out.info_end = Some(Info::of(&dec));
        }
    }
    sim.ev("end", out.frames.len() as u64, matches!(out.end, End::Done).into());
    out
}

/// First difference between two frame lists, in words.
pub fn diff_frames(a: &[FrameRec], b: &[FrameRec]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => {
                let at = x.buffer.iter().zip(&y.buffer).position(|(p, q)| p != q);
                return Some(format!("frame {i}: [{}] vs [{}] first differing byte {:?}", x.short(), y.short(), at));
            }
            (x, y) => return Some(format!("frame {i}: {:?} vs {:?}", x.map(FrameRec::short), y.map(FrameRec::short))),
        }
    }
    None
}

pub fn expected_dispose(d: u8) -> DisposalMethod {
    match d {
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        3 => DisposalMethod::Previous,
        _ => DisposalMethod::Any,
    }
}

/// Metadata of a frame against the model (everything except buffer and interlace flag).
pub fn check_meta(i: usize, got: &FrameRec, e: &ExpFrame) -> Check {
    let bad = |what: &str, g: String, x: String| -> Check { violation("frame-metadata", format!("frame {i}: {what} is {g}, the stream says {x}")) };
    if (got.left, got.top, got.w, got.h) != (e.left, e.top, e.w, e.h) {
        return bad("position/size", format!("{:?}", (got.left, got.top, got.w, got.h)), format!("{:?}", (e.left, e.top, e.w, e.h)));
    }
    if got.palette != e.local {
        return bad(
            "local palette",
            format!("{:?} bytes", got.palette.as_ref().map(Vec::len)),
            format!("{:?} bytes (or contents differ)", e.local.as_ref().map(Vec::len)),
        );
    }
    match &e.gce {
        Some(g) => {
            if got.delay != g.delay {
                return bad("delay", got.delay.to_string(), g.delay.to_string());
            }
            if got.transparent != g.transparent {
                return bad("transparent index", format!("{:?}", got.transparent), format!("{:?}", g.transparent));
            }
            if got.user_input != g.user_input {
                return bad("user input flag", got.user_input.to_string(), g.user_input.to_string());
            }
            // 4..=7 are undefined by the format
            if g.disposal < 4 && got.dispose != expected_dispose(g.disposal) {
                return bad("disposal", format!("{:?}", got.dispose), format!("{:?}", expected_dispose(g.disposal)));
            }
        }
        None => {
            if got.delay != 0 || got.transparent.is_some() || got.user_input {
                return bad("control data", got.short(), "no control block".into());
            }
            if !matches!(got.dispose, DisposalMethod::Any | DisposalMethod::Keep) {
                return bad("disposal", format!("{:?}", got.dispose), "no control block".into());
            }
        }
    }
    Ok(())
}

/// A completely decoded frame against the model.
pub fn check_frame(i: usize, got: &FrameRec, e: &ExpFrame, m: &Model, rgba: bool) -> Check {
    check_meta(i, got, e)?;
    let want = if rgba { e.rgba(m) } else { e.pixels.clone() };
    if got.buffer != want {
        let at = got.buffer.iter().zip(&want).position(|(a, b)| a != b);
        return violation(
            "pixels",
            format!("frame {i} ({}x{}): pixel data differ from the stream's, {} vs {} bytes, first difference at {:?}", e.w, e.h, got.buffer.len(), want.len(), at),
        );
    }
    Ok(())
}

pub fn check_info(got: &Info, m: &Model, repeat: Option<u16>) -> Check {
    if (got.w, got.h) != (m.w, m.h) {
        return violation("screen-size", format!("{}x{}, the stream says {}x{}", got.w, got.h, m.w, m.h));
    }
    if got.global != m.global {
        return violation("global-palette", format!("{:?} vs {:?} bytes", got.global.as_ref().map(Vec::len), m.global.as_ref().map(Vec::len)));
    }
    if let Some(g) = &m.global {
        let want = (usize::from(m.bg) < g.len() / 3).then_some(usize::from(m.bg));
        if got.bg != want {
            return violation("background", format!("{:?}, the stream says {:?}", got.bg, want));
        }
    }
    let want = match repeat {
        None => Repeat::Finite(0),
        Some(0) => Repeat::Infinite,
        Some(n) => Repeat::Finite(n),
    };
    if got.repeat != want {
        return violation("repeat", format!("{:?}, the stream says {:?}", got.repeat, want));
    }
    Ok(())
}

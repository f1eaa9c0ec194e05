//! The encoder: what it writes, into whatever kind of sink, and what happens when the sink fails.

use super::decode::pick_drain;
use super::Prop;
use crate::ensure;
use crate::gifgen::{exchange, num16, HUGE, gen_pixels, interlace, to_rgba};
use crate::lzw;
use crate::gifparse::{self, PBlock, PGce};
use crate::rec::*;
use crate::rng::Rng;
use crate::sim::{hash_bytes, violation, Check, Lane, Sim};
use crate::world::{sink_bytes, sink_fired, sink_len, Accept, Delivery, SimReader, SimWriter, Sink, WriteFault, FaultKind, Payload, SINK_PANIC};
use gif::{AnyExtension, DisposalMethod, Encoder, EncodingError, EncodingFormatError, Extension, ExtensionData, Frame, Repeat};
use std::borrow::Cow;
use std::io;
use std::sync::Arc;

const WRITER_STUB: &str = "output sink (simulated), caller (simulated)";

#[derive(Clone, Debug, PartialEq)]
pub enum How {
    Direct,
    PreEncoded,
    /// compressed by somebody else, with the code size in front; nothing at all for a frame without pixels
    Foreign(Arc<Vec<u8>>),
}

impl std::fmt::Display for How {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            How::Direct => write!(f, "direct"),
            How::PreEncoded => write!(f, "compressed"),
            How::Foreign(v) => write!(f, "foreign data, {} bytes, code size {:?}", v.len(), v.first()),
        }
    }
}

/// Compressed data in another style than the library's.
fn foreign(sim: &Sim, raster: &[u8]) -> How {
    if raster.is_empty() && sim.w(2) == 1 {
        return How::Foreign(Arc::default());
    }
    let max = raster.iter().copied().max().unwrap_or(0);
    let least = (2..8).find(|b| u16::from(max) < 1 << b).unwrap_or(8);
    let st = lzw::LzwStyle {
        min_code_size: least + sim.w(9 - u64::from(least)) as u8,
        matching: sim.w(3) as u8,
        initial_clear: sim.w(4) != 3,
        clears: sim.w(3) as u8,
        clear_on_full: sim.w(2) == 0,
        end_code: sim.w(4) != 3,
        junk: 0,
        seed: sim.w(1 << 16),
    };
    let mut v = vec![st.min_code_size];
    v.extend(lzw::encode(raster, &st).data);
    How::Foreign(Arc::new(v))
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub delay: u16,
    pub dispose: DisposalMethod,
    pub user_input: bool,
    pub transparent: Option<u8>,
    pub interlaced: bool,
    pub palette: Option<Vec<u8>>,
    /// logical row order
    pub pixels: Vec<u8>,
    pub how: How,
}

impl Spec {
    pub fn raster(&self) -> Vec<u8> {
        if self.interlaced {
            interlace(&self.pixels, self.w as usize, self.h as usize)
        } else {
            self.pixels.clone()
        }
    }
    fn how(mut self, sim: &Sim) -> Spec {
        self.how = match sim.w(12) {
            0..=7 => How::Direct,
            8..=10 => How::PreEncoded,
            _ => foreign(sim, &self.raster()),
        };
        self
    }
    pub fn frame(&self) -> Frame<'static> {
        let raster = self.raster();
        // half of the frames that a constructor can make are made by it
        let fits = raster.len() == self.w as usize * self.h as usize && self.palette.as_ref().map_or(true, |p| p.len() <= 768);
        if fits && (self.w ^ self.h ^ self.delay) & 1 == 1 {
            let mut f = match &self.palette {
                Some(p) => Frame::from_palette_pixels(self.w, self.h, raster, p.clone(), self.transparent),
                None => Frame::from_indexed_pixels(self.w, self.h, raster, self.transparent),
            };
            f.delay = self.delay;
            f.dispose = self.dispose;
            f.needs_user_input = self.user_input;
            f.top = self.top;
            f.left = self.left;
            f.interlaced = self.interlaced;
            return f;
        }
        Frame {
            delay: self.delay,
            dispose: self.dispose,
            transparent: self.transparent,
            needs_user_input: self.user_input,
            top: self.top,
            left: self.left,
            width: self.w,
            height: self.h,
            interlaced: self.interlaced,
            palette: self.palette.clone(),
            buffer: Cow::Owned(raster),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Frame(Spec),
    Ext(u8, Vec<Vec<u8>>),
    /// a control block of its own and the plain text it belongs to: delay, disposal, user input, transparent
    Text(u16, DisposalMethod, bool, Option<u8>, Vec<Vec<u8>>),
    Repeat(Repeat),
    /// must be rejected
    Bad(u64, Spec),
}

#[derive(Clone, Debug)]
pub struct Script {
    pub w: u16,
    pub h: u16,
    pub global: Vec<u8>,
    pub ops: Vec<Op>,
}

/// What a palette becomes in the stream: whole colours, rounded up to a power of two, at least 2.
pub fn padded(p: &[u8]) -> Vec<u8> {
    let n = p.len() / 3;
    let mut v = p[..n * 3].to_vec();
    v.resize(n.max(2).next_power_of_two() * 3, 0);
    v
}

fn colors(sim: &Sim, lo: u64) -> Vec<u8> {
    let n = match sim.w(4) {
        0 => [2, 1, 4, 3, 5, 255, 256, 129][sim.w(8) as usize],
        1 => lo,
        _ => lo + sim.w(257 - lo),
    };
    let mut r = Rng::new(sim.w(1 << 16) ^ 0xc01);
    let odd = if sim.w(9) == 8 { 1 + sim.w(2) } else { 0 };
    let odd = if n == 256 { 0 } else { odd };
    (0..n * 3 + odd).map(|_| r.next() as u8).collect()
}

pub fn gen_spec(sim: &Sim, have_global: bool, big: bool) -> Spec {
    let (w, h) = match sim.weighted(Lane::Work, &[200, 60, 30, if big { 10 } else { 0 }, 20, u64::from(big)]) {
        0 => (1 + sim.w(12), 1 + sim.w(12)),
        1 => (1 + sim.w(100), 1 + sim.w(4)),
        2 => (16 + sim.w(50), 16 + sim.w(50)),
        3 => match sim.w(3) {
            0 => (80 + sim.w(60), 80 + sim.w(60)),
            1 => (141 + sim.w(2000), 1 + sim.w(9)),
            _ => (1 + sim.w(9), 141 + sim.w(2000)),
        },
        // more pixels or longer lines than 16 bits can count
        5 if sim.w(8) == 7 => {
            sim.probe("scale: hundreds of thousands of pixels");
            let (w, h) = HUGE[sim.w(HUGE.len() as u64) as usize];
            (u64::from(w), u64::from(h))
        }
        5 => [(65535, 1), (1, 65535), (16384, 2), (300, 230), (257, 256)][sim.w(5) as usize],
        _ => [(0, 0), (0, 5), (5, 0)][sim.w(3) as usize],
    };
    let n = (w * h) as usize;
    let ncol = [2, 4, 3, 16, 17, 128, 129, 200, 256, 1][sim.w(10) as usize];
    let pixels = gen_pixels(sim, n, ncol);
    let coord = |sim: &Sim| if sim.w(5) == 4 { num16(sim) } else { [0, 0, 1, 7, 255, 256, 65535, 1000][sim.w(8) as usize] };
    Spec {
        left: coord(sim),
        top: coord(sim),
        w: w as u16,
        h: h as u16,
        delay: if sim.w(4) == 3 { num16(sim) } else { [0, 1, 10, 255, 256, 0x1234, 65535][sim.w(7) as usize] },
        dispose: [DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous][sim.w(4) as usize],
        user_input: sim.w(4) == 3,
        transparent: if sim.w(2) == 1 { Some(sim.w(256) as u8) } else { None },
        interlaced: sim.w(3) == 2,
        palette: if !have_global || sim.w(3) == 2 { Some(colors(sim, 0)) } else { None },
        pixels,
        how: How::Direct,
    }
    .how(sim)
}

pub fn gen_parts(sim: &Sim) -> Vec<Vec<u8>> {
    (0..sim.w(4))
        .map(|_| {
            let n = [1, 0, 3, 11, 254, 255, 256, 510, 511, 700][sim.w(10) as usize];
            let mut r = Rng::new(sim.w(1 << 16));
            (0..n).map(|_| r.next() as u8).collect()
        })
        .collect()
}

/// The same frame with one thing different.
fn sibling(sim: &Sim, of: &Spec) -> Spec {
    sim.probe("frame much like the one before");
    let mut f = of.clone();
    match sim.w(8) {
        0 => {}
        1 => {
            if let Some(p) = &mut f.palette {
                exchange(sim, p, 255);
            }
        }
        2 => std::mem::swap(&mut f.w, &mut f.h),
        3 => f.interlaced = !f.interlaced,
        4 => {
            let top = f.pixels.iter().copied().max().unwrap_or(0);
            exchange(sim, &mut f.pixels, top);
        }
        5 => std::mem::swap(&mut f.left, &mut f.top),
        6 => f.transparent = f.transparent.map_or(Some(0), |t| t.checked_add(1)),
        // a colour more or less, which may be what the padding makes of it anyway
        _ => match &mut f.palette {
            Some(p) if p.len() > 6 && sim.w(2) == 0 => p.truncate(p.len() - 3),
            Some(p) if p.len() <= 765 => p.extend_from_slice(&[0, 0, 0]),
            _ => {}
        },
    }
    f.how(sim)
}

pub fn gen_script(sim: &Sim, max_ops: u64, bad: bool) -> Script {
    let mut global = if sim.w(4) == 3 { Vec::new() } else { colors(sim, 1) };
    if global.is_empty() && sim.w(3) == 2 {
        // less than one colour is no palette
        global = vec![7; 1 + sim.w(2) as usize];
    }
    let have = global.len() >= 3;
    let n = sim.w(max_ops + 1);
    let mut ops = Vec::new();
    let mut repeats_before = 0;
    let mut frames = 0;
    let mut last: Option<Spec> = None;
    for _ in 0..n {
        ops.push(match sim.weighted(Lane::Work, &[6, 2, 1, if bad { 4 } else { 0 }]) {
            0 => {
                frames += 1;
                let f = match &last {
                    Some(l) if sim.w(7) == 6 => sibling(sim, l),
                    _ => gen_spec(sim, have, true),
                };
                last = Some(f.clone());
                Op::Frame(f)
            }
            1 => match sim.w(10) {
                k @ 0..=8 => Op::Ext([0xFE, 0xFF, 1][k as usize % 3], gen_parts(sim)),
                _ => {
                    let f = gen_spec(sim, true, false);
                    Op::Text(f.delay, f.dispose, f.user_input, f.transparent, gen_parts(sim))
                }
            },
            2 => {
                let r = [Repeat::Infinite, Repeat::Finite(1), Repeat::Finite(0), Repeat::Finite(256), Repeat::Finite(65535), Repeat::Finite(num16(sim).max(1))][sim.w(6) as usize];
                if frames == 0 && r != Repeat::Finite(0) {
                    if repeats_before > 0 {
                        continue;
                    }
                    repeats_before += 1;
                }
                Op::Repeat(r)
            }
            _ => {
                let kind = match sim.w(40) {
                    k @ 0..=35 => k % 6,
                    _ => 6,
                };
                Op::Bad(kind, gen_spec(sim, have, false))
            }
        });
    }
    if sim.chance(Lane::Work, 1, 800) {
        scale_up(sim, have, &mut ops);
    }
    Script { w: sim.w(1 << 16) as u16, h: if sim.w(3) == 2 { num16(sim) } else { [1, 0, 255, 256, 65535, 77][sim.w(6) as usize] }, global, ops }
}

/// Counts and lengths far beyond what ordinary scripts reach.
fn scale_up(sim: &Sim, have_global: bool, ops: &mut Vec<Op>) {
    match sim.w(4) {
        0 => {
            sim.probe("scale: very many frames encoded");
            let n = [256, 257, 300, 520, 1025][sim.w(5) as usize];
            let first = gen_spec(sim, have_global, false);
            for k in 0..n {
                let mut f = first.clone();
                (f.w, f.h) = (1 + k % 2, 1);
                f.delay = k;
                f.pixels = vec![(k % 251) as u8; f.w as usize];
                f.how = if k % 3 == 0 { How::PreEncoded } else { How::Direct };
                ops.push(Op::Frame(f));
            }
        }
        1 => {
            sim.probe("scale: very long extension encoded");
            let n = [65_280, 65_281, 65_535, 65_536, 65_537, 131_072, 200_000][sim.w(7) as usize];
            let mut r = Rng::new(sim.w(1 << 16));
            ops.push(Op::Ext([0xFE, 0xFF, 1][sim.w(3) as usize], vec![(0..n).map(|_| r.next() as u8).collect()]));
        }
        2 => {
            sim.probe("scale: extension of very many parts encoded");
            let n = [255, 256, 257, 1000, 5000][sim.w(5) as usize];
            let mut r = Rng::new(sim.w(1 << 16));
            ops.push(Op::Ext(0xFE, (0..n).map(|_| (0..r.below(4)).map(|v| v as u8 + 1).collect()).collect()));
        }
        _ => {
            sim.probe("scale: very many extensions encoded");
            let n = [255, 256, 257, 600][sim.w(4) as usize];
            for k in 0..n {
                ops.push(Op::Ext([0xFE, 0xFF, 1][k % 3], vec![vec![k as u8; k % 5]]));
            }
        }
    }
    if sim.w(2) == 1 {
        ops.push(Op::Frame(gen_spec(sim, have_global, true)));
    }
}

pub fn describe(s: &Script) -> String {
    let mut t = format!("encoder {}x{} global={} bytes [", s.w, s.h, s.global.len());
    for o in &s.ops {
        t += &match o {
            Op::Frame(f) => format!(" frame({}x{}+{}+{} pal={:?} il={} t={:?} {})", f.w, f.h, f.left, f.top, f.palette.as_ref().map(Vec::len), f.interlaced, f.transparent, f.how),
            Op::Ext(l, p) => format!(" ext({l:#x},{:?})", p.iter().map(Vec::len).collect::<Vec<_>>()),
            Op::Text(d, m, u, t, p) => format!(" text({d},{m:?},{u},{t:?},{:?})", p.iter().map(Vec::len).collect::<Vec<_>>()),
            Op::Repeat(r) => format!(" repeat({r:?})"),
            Op::Bad(k, f) => format!(" bad({k},{}x{})", f.w, f.h),
        };
    }
    t + " ]"
}

pub fn apply<W: io::Write>(enc: &mut Encoder<W>, op: &Op) -> Result<(), EncodingError> {
    match op {
        Op::Frame(s) => {
            let mut f = s.frame();
            match &s.how {
                How::Direct => enc.write_frame(&f),
                How::PreEncoded => {
                    f.make_lzw_pre_encoded();
                    enc.write_lzw_pre_encoded_frame(&f)
                }
                How::Foreign(v) => {
                    f.buffer = Cow::Borrowed(&v[..]);
                    enc.write_lzw_pre_encoded_frame(&f)
                }
            }
        }
        Op::Ext(l, parts) => {
            let refs: Vec<&[u8]> = parts.iter().map(Vec::as_slice).collect();
            Ok(enc.write_raw_extension(AnyExtension(*l), &refs)?)
        }
        Op::Text(d, m, u, t, parts) => {
            enc.write_extension(ExtensionData::new_control_ext(*d, *m, *u, *t))?;
            let refs: Vec<&[u8]> = parts.iter().map(Vec::as_slice).collect();
            Ok(enc.write_raw_extension(Extension::Text.into(), &refs)?)
        }
        Op::Repeat(r) => {
            if matches!(r, Repeat::Finite(256)) {
                enc.write_extension(ExtensionData::Repetitions(*r))
            } else {
                enc.set_repeat(*r)
            }
        }
        Op::Bad(k, s) => {
            let mut f = s.frame();
            if *k >= 2 && f.palette.is_none() {
                f.palette = Some(vec![0; 6]);
            }
            match k {
                // too many colours
                0 | 3 => f.palette = Some(vec![7; 3 * (257 + s.w as usize)]),
                1 => {
                    // too few pixels
                    f.width = f.width.max(1);
                    f.height = f.height.max(1);
                    let n = f.width as usize * f.height as usize;
                    f.buffer = Cow::Owned(vec![0; n - 1]);
                }
                2 => {
                    f.width = 65535;
                    f.height = 65535;
                }
                6 => {
                    // sizes and lengths around 16 bits
                    (f.width, f.height) = [(300, 300), (256, 256), (65535, 2), (2, 65535), (257, 256), (65535, 1), (16384, 9)][s.delay as usize % 7];
                    let n = f.width as usize * f.height as usize;
                    f.buffer = Cow::Owned(vec![0; [n - 1, 0, 65535, 65534, n & 0xFFFF, n / 2][s.top as usize % 6].min(n - 1)]);
                }
                _ => {}
            }
            match k {
                3 => {
                    f.make_lzw_pre_encoded();
                    enc.write_lzw_pre_encoded_frame(&f)
                }
                4 => {
                    let mut d = vec![[0, 1, 12, 13, 128, 255][s.h as usize % 6]];
                    d.extend_from_slice(&s.pixels);
                    f.buffer = Cow::Owned(d);
                    enc.write_lzw_pre_encoded_frame(&f)
                }
                _ => enc.write_frame(&f),
            }
        }
    }
}

/// The script's bytes without trailer as a perfect sink gets them, with the length after each step
/// (the first is that of the header).
pub fn reference(s: &Script) -> Check<(Vec<u8>, Vec<usize>)> {
    let mut v = Vec::new();
    let mut marks = Vec::new();
    {
        let mut enc = match Encoder::new(&mut v, s.w, s.h, &s.global) {
            Ok(e) => e,
            Err(e) => return violation("refused", format!("the encoder is not created: {e}")),
        };
        marks.push(enc.get_ref().len());
        for (i, op) in s.ops.iter().enumerate() {
            if let Err(e) = apply(&mut enc, op) {
                return violation("refused", format!("operation {i} fails: {e}"));
            }
            marks.push(enc.get_ref().len());
        }
    }
    if v.last() != Some(&0x3B) || v.len() != marks[marks.len() - 1] + 1 {
        return violation("trailer", format!("{} bytes after dropping, {} before, last byte {:?}", v.len(), marks[marks.len() - 1], v.last()));
    }
    v.pop();
    Ok((v, marks))
}

fn writer(sim: &Sim, sink: &Sink) -> SimWriter {
    let mut w = SimWriter::new(sim, sink, Accept::pick(sim));
    if sim.chance(Lane::Fault, 1, 2) {
        w = w.eintr(1, [2, 4, 10, 40][sim.f(4) as usize]);
    }
    w
}

/// A decoded frame against what was encoded.
pub fn check_round(i: usize, got: &FrameRec, s: &Spec, global: &[u8], rgba: bool) -> Check {
    let meta = (got.left, got.top, got.w, got.h, got.delay, got.dispose, got.user_input, got.transparent);
    let want = (s.left, s.top, s.w, s.h, s.delay, s.dispose, s.user_input, s.transparent);
    ensure!(meta == want, "frame-metadata", "frame {i}: {meta:?}, encoded {want:?}");
    let pal = s.palette.as_deref().map(padded);
    ensure!(got.palette == pal, "frame-palette", "frame {i}: {:?} vs {:?} bytes (or contents)", got.palette.as_ref().map(Vec::len), pal.as_ref().map(Vec::len));
    let px = if rgba { to_rgba(&s.pixels, pal.as_deref().unwrap_or(global), s.transparent) } else { s.pixels.clone() };
    ensure!(got.buffer == px, "pixels", "frame {i} ({}x{}): {} vs {} bytes, first difference at {:?}", s.w, s.h, got.buffer.len(), px.len(), got.buffer.iter().zip(&px).position(|(a, b)| a != b));
    Ok(())
}

pub fn specs(s: &Script) -> Vec<&Spec> {
    s.ops
        .iter()
        .filter_map(|o| match o {
            Op::Frame(f) => Some(f),
            _ => None,
        })
        .collect()
}

fn script_probes(sim: &Sim, s: &Script) {
    for f in specs(s) {
        if f.pixels.is_empty() {
            sim.probe("encode: frame without pixels");
        }
        if f.pixels.len() > 5000 {
            sim.probe("encode: large frame");
        }
        match f.how {
            How::PreEncoded => sim.probe("encode: compressed beforehand"),
            How::Foreign(_) => sim.probe("encode: compressed by another encoder"),
            How::Direct => {}
        }
        if f.interlaced {
            sim.probe("encode: interlaced");
        }
    }
}

// ------------------------------------------------------------------ C13

pub static C13: Prop = Prop {
    id: "C13",
    run: c13,
    quick_runs: 500_000,
    level: "exploration",
    rule: "drawn script of encoder calls written through a sink with drawn short writes and interruptions, decoded again under a drawn delivery and access path and compared with the script; non-trivial = at least one frame with pixels",
    stubs: "output sink, input reader (simulated), caller (simulated)",
    assumptions: &["at most one repeat setting before the first frame", "palettes come back with whole colours only, padded with black to a power of two"],
};

fn c13(sim: &Sim) -> Check {
    let mut s = gen_script(sim, 7, false);
    // more pixels than the frame needs are allowed, too
    let mut extra = 0;
    if sim.w(6) == 5 {
        extra = 1 + sim.w(30) as usize;
    }
    sim.note(|| describe(&s));
    script_probes(sim, &s);
    let sink = Sink::default();
    let w = writer(sim, &sink);
    let mut enc = match Encoder::new(w, s.w, s.h, &s.global) {
        Ok(e) => e,
        Err(e) => return violation("refused", format!("{e}")),
    };
    for (i, op) in s.ops.iter_mut().enumerate() {
        let r = match op {
            Op::Frame(f) if extra > 0 && f.how == How::Direct && !f.pixels.is_empty() => {
                let mut fr = f.frame();
                fr.buffer.to_mut().extend((0..extra).map(|k| k as u8));
                enc.write_frame(&fr)
            }
            op => apply(&mut enc, op),
        };
        if let Err(e) = r {
            return violation("refused", format!("operation {i}: {e}"));
        }
    }
    if sim.c(2) == 0 {
        if let Err(e) = enc.into_inner() {
            return violation("refused", format!("finishing: {e}"));
        }
    } else {
        drop(enc);
    }
    let bytes = sink_bytes(&sink);
    sim.ev("encoded", bytes.len() as u64, hash_bytes(&bytes));
    let cfg = Cfg { rgba: sim.c(2) == 1, consistency: false, end_code: sim.c(2) == 1 && !specs(&s).iter().any(|f| matches!(f.how, How::Foreign(_))), ..Cfg::default() };
    let r = SimReader::new(sim, Arc::new(bytes), Arc::new(Vec::new()), Delivery::pick(sim));
    let out = drain(sim, &cfg, r, pick_drain(sim));
    let Some(info) = &out.info else { return violation("not-decodable", format!("{:?}", out.end)) };
    let global = padded(&s.global);
    ensure!((info.w, info.h) == (s.w, s.h), "screen-size", "{}x{}", info.w, info.h);
    ensure!(info.global.as_ref() == Some(&global), "global-palette", "{:?} vs {} bytes (or contents)", info.global.as_ref().map(Vec::len), global.len());
    let mut repeat = Repeat::Finite(0);
    for op in &s.ops {
        match op {
            Op::Frame(_) => break,
            Op::Repeat(r) if *r != Repeat::Finite(0) => repeat = *r,
            _ => {}
        }
    }
    ensure!(info.repeat == repeat, "repeat", "{:?}, encoded {repeat:?}", info.repeat);
    let want = specs(&s);
    for (i, f) in want.iter().enumerate() {
        let Some(got) = out.frames.get(i) else { return violation("frame-missing", format!("frame {i} of {}: {:?}", want.len(), out.end)) };
        check_round(i, got, f, &global, cfg.rgba)?;
        if !f.pixels.is_empty() {
            sim.nontrivial();
        }
    }
    ensure!(out.frames.len() == want.len() && out.end == End::Done, "bad-end", "{} frames, {} encoded, {:?}", out.frames.len(), want.len(), out.end);
    Ok(())
}

// ------------------------------------------------------------------ C14

pub static C14: Prop = Prop {
    id: "C14",
    run: c14,
    quick_runs: 500_000,
    level: "exploration",
    rule: "drawn script written to a perfect sink and through a sink with drawn short writes and interruptions; bytes compared, then parsed by an independent strict parser and compared call by call; non-trivial = at least one operation and one short or interrupted write",
    stubs: WRITER_STUB,
    assumptions: &["frame buffers hold exactly the frame's pixels"],
};

fn c14(sim: &Sim) -> Check {
    let s = gen_script(sim, 7, false);
    sim.note(|| describe(&s));
    script_probes(sim, &s);
    let (mut base, _) = reference(&s)?;
    base.push(0x3B);
    // the sink may be exchanged between calls, such as to send what has accumulated
    let mut sinks = vec![Sink::default()];
    let exchanging = sim.c(4) == 3;
    let w = writer(sim, &sinks[0]);
    let r = (|| {
        let mut enc = Encoder::new(w, s.w, s.h, &s.global)?;
        for op in &s.ops {
            if exchanging && sim.c(2) == 1 {
                sim.probe("sink exchanged between calls");
                let sink = Sink::default();
                *enc.get_mut() = writer(sim, &sink);
                sinks.push(sink);
            }
            apply(&mut enc, op)?;
        }
        enc.into_inner().map_err(EncodingError::from)
    })();
    if let Err(e) = r {
        return violation("refused", format!("through a slow but working sink: {e}"));
    }
    let got: Vec<u8> = sinks.iter().flat_map(sink_bytes).collect();
    sim.ev("encoded", got.len() as u64, hash_bytes(&got));
    let writes: u64 = sinks.iter().map(|s| s.lock().map_or(0, |s| s.writes as u64)).sum();
    if !s.ops.is_empty() && writes > 10 {
        sim.nontrivial();
    }
    ensure!(got == base, "bytes-differ", "{} bytes, {} through a perfect sink, first difference at {:?}", got.len(), base.len(), got.iter().zip(&base).position(|(a, b)| a != b));
    let p = match gifparse::parse(&base) {
        Ok(p) => p,
        Err(e) => return violation("invalid", e),
    };
    ensure!(p.end == base.len(), "invalid", "{} bytes after the trailer", base.len() - p.end);
    ensure!(&p.version == b"GIF89a", "invalid", "version {:?}", p.version);
    ensure!((p.w, p.h) == (s.w, s.h), "screen-size", "{}x{}", p.w, p.h);
    ensure!(p.global == Some(padded(&s.global)), "global-palette", "{:?} bytes", p.global.as_ref().map(Vec::len));
    let mut it = p.blocks.iter();
    for (i, op) in s.ops.iter().enumerate() {
        match op {
            Op::Frame(f) => {
                let Some(PBlock::Image(g)) = it.next() else { return violation("structure", format!("operation {i}: no image")) };
                ensure!((g.left, g.top, g.w, g.h, g.interlaced) == (f.left, f.top, f.w, f.h, f.interlaced), "structure", "operation {i}: {:?}", (g.left, g.top, g.w, g.h, g.interlaced));
                ensure!(g.local == f.palette.as_deref().map(padded), "structure", "operation {i}: palette of {:?} bytes", g.local.as_ref().map(Vec::len));
                ensure!(g.pixels == f.raster(), "structure", "operation {i}: pixels differ");
                if let How::Foreign(v) = &f.how {
                    ensure!(v.is_empty() || v[0] == g.mcs && v[1..] == g.lzw, "structure", "operation {i}: compressed data changed");
                } else {
                    ensure!(g.ended_by_code, "structure", "operation {i}: no end code");
                }
                match &g.gce {
                    Some(c) => {
                        let (a, b) = ((c.disposal, c.user_input, c.transparent, c.delay), (f.dispose as u8, f.user_input, f.transparent, f.delay));
                        ensure!(a == b, "structure", "operation {i}: control block {a:?}, given {b:?}");
                    }
                    // only needed when there is something to say
                    None => ensure!(f.dispose == DisposalMethod::Any && !f.user_input && f.transparent.is_none() && f.delay == 0, "structure", "operation {i}: no control block"),
                }
            }
            Op::Ext(l, parts) => {
                let Some(PBlock::Ext { label, blocks }) = it.next() else { return violation("structure", format!("operation {i}: no extension")) };
                ensure!(label == l && blocks.concat() == parts.concat(), "structure", "operation {i}: extension {label:#x} of {} bytes", blocks.concat().len());
            }
            Op::Text(d, m, u, t, parts) => {
                let want = PGce { disposal: *m as u8, user_input: *u, transparent: *t, delay: *d };
                let g = it.next();
                ensure!(g == Some(&PBlock::TextControl(want)), "structure", "operation {i}: {g:?} for the control block of a plain text");
                let Some(PBlock::Ext { label, blocks }) = it.next() else { return violation("structure", format!("operation {i}: no plain text")) };
                ensure!(*label == 1 && blocks.concat() == parts.concat(), "structure", "operation {i}: extension {label:#x} of {} bytes", blocks.concat().len());
            }
            Op::Repeat(Repeat::Finite(0)) => {}
            Op::Repeat(r) => {
                let want = match r {
                    Repeat::Infinite => 0,
                    Repeat::Finite(n) => *n,
                };
                let g = it.next();
                ensure!(g == Some(&PBlock::Loop(want)), "structure", "operation {i}: {:?}", g);
            }
            Op::Bad(..) => {}
        }
    }
    ensure!(it.next().is_none(), "structure", "more structures than operations");
    Ok(())
}

// ------------------------------------------------------------------ C15

pub static C15: Prop = Prop {
    id: "C15",
    run: c15,
    quick_runs: 500_000,
    level: "exploration",
    rule: "drawn script against a sink that fails at a drawn byte (once or for good, by error, full disk or accepting nothing) or whenever it is flushed, with short writes and interruptions, or a crash at a drawn byte; what the sink accepted is compared with the fault-free bytes and decoded; non-trivial = the fault fired after at least one acknowledged operation",
    stubs: "output sink, input reader (simulated), caller (simulated)",
    assumptions: &["after a failed call only dropping the encoder is considered; dropping may add a trailer"],
};

pub fn check_write_error(e: &io::Error, k: FaultKind) -> Check {
    k.check(e, true).or_else(|d| violation("error-changed", d))
}

fn io_of(e: EncodingError) -> Check<io::Error> {
    match e {
        EncodingError::Io(e) => Ok(e),
        e => violation("error-changed", format!("a sink failure is reported as a format error: {e}")),
    }
}

fn pick_fault(sim: &Sim, marks: &[usize], end: usize) -> WriteFault {
    let at = match sim.f(3) {
        0 => sim.f(end as u64 + 1) as usize,
        1 => marks[sim.f(marks.len() as u64) as usize] + sim.f(3) as usize,
        _ => (marks[sim.f(marks.len() as u64) as usize] + 1).saturating_sub(sim.f(4) as usize),
    }
    .min(end);
    let kind = FaultKind::pick(sim);
    WriteFault { at, kind, times: if sim.f(2) == 0 { 1 } else { u32::MAX } }
}

/// A sink that takes every byte and fails whenever it is told to flush (a file behind a buffer, on a full
/// disk): nobody has to flush, but a call that does so reports what comes of it.
fn c15_flush(sim: &Sim, s: &Script, base: &[u8], marks: &[usize]) -> Check {
    let sink = Sink::default();
    let mut w = writer(sim, &sink);
    w.bad_flush = true;
    sim.ev("plan-fault", u64::MAX, 0);
    let flushes = || sink.lock().unwrap_or_else(|e| e.into_inner()).flush_failed;
    let told = |what: &str, r: Result<(), EncodingError>| -> Check<bool> {
        match r {
            Ok(()) => {
                ensure!(flushes() == 0, "error-swallowed", "{what} succeeds although the sink failed to flush");
                Ok(true)
            }
            Err(e) => {
                ensure!(flushes() > 0, "error-invented", "{what}: {e}");
                let e = io_of(e)?;
                ensure!(e.get_ref().map_or(false, |p| p.is::<Payload>()), "error-changed", "{what}: {e}");
                ensure!(flushes() == 1, "error-swallowed", "{} failures to flush, one reported", flushes());
                Ok(false)
            }
        }
    };
    let mut enc = None;
    let r = Encoder::new(w, s.w, s.h, &s.global).map(|e| enc = Some(e));
    let mut going = told("creating the encoder", r)?;
    if let Some(mut enc) = enc {
        for (i, op) in s.ops.iter().enumerate() {
            going = going && told("an operation", apply(&mut enc, op))?;
            if !going {
                break;
            }
            ensure!(sink_len(&sink) == marks[i + 1], "not-written", "operation {i} succeeded with {} bytes in the sink, {} due", sink_len(&sink), marks[i + 1]);
        }
        if going {
            told("finishing", enc.into_inner().map(drop).map_err(EncodingError::Io))?;
        }
    }
    // a prefix of the operations' bytes, and perhaps a trailer
    let got = sink_bytes(&sink);
    let same = got.iter().zip(base).take_while(|(a, b)| a == b).count();
    ensure!(got[same..].iter().all(|&b| b == 0x3B) && got.len() <= same + 1, "not-a-prefix", "accepted bytes differ from the fault-free ones at {same}");
    Ok(())
}

fn c15(sim: &Sim) -> Check {
    let s = gen_script(sim, 6, false);
    sim.note(|| describe(&s));
    let (base, marks) = reference(&s)?;
    if sim.chance(Lane::Fault, 1, 10) {
        return c15_flush(sim, &s, &base, &marks);
    }
    let fault = pick_fault(sim, &marks, base.len());
    sim.ev("plan-fault", fault.at as u64, fault.kind.code());
    let sink = Sink::default();
    let w = writer(sim, &sink).faults(vec![fault]);
    let mut acked = 0; // operations
    let mut failed = false;
    let r = Encoder::new(w, s.w, s.h, &s.global);
    match r {
        Err(e) => {
            ensure!(sink_fired(&sink) > 0, "error-invented", "{e}");
            check_write_error(&io_of(e)?, fault.kind)?;
            let got = sink_bytes(&sink);
            let ok = got[..] == base[..fault.at] || got.len() == fault.at + 1 && got[..fault.at] == base[..fault.at] && got[fault.at] == 0x3B;
            ensure!(fault.at < marks[0] && ok, "not-a-prefix", "{} bytes accepted, failure at {}", got.len(), fault.at);
            return Ok(());
        }
        Ok(mut enc) => {
            ensure!(sink_fired(&sink) == 0, "error-swallowed", "creating the encoder succeeds although the sink failed");
            ensure!(sink_len(&sink) == marks[0], "not-written", "{} bytes in the sink after creating the encoder, {} due", sink_len(&sink), marks[0]);
            for (i, op) in s.ops.iter().enumerate() {
                match apply(&mut enc, op) {
                    Ok(()) => {
                        ensure!(sink_fired(&sink) == 0, "error-swallowed", "operation {i} succeeds although the sink failed");
                        ensure!(sink_len(&sink) == marks[i + 1], "not-written", "operation {i} succeeded with {} bytes in the sink, {} due", sink_len(&sink), marks[i + 1]);
                        acked = i + 1;
                        sim.ev("acked", acked as u64, marks[i + 1] as u64);
                    }
                    Err(e) => {
                        ensure!(sink_fired(&sink) > 0, "error-invented", "operation {i}: {e}");
                        check_write_error(&io_of(e)?, fault.kind)?;
                        ensure!(sink_fired(&sink) == 1, "error-swallowed", "{} failures, one reported", sink_fired(&sink));
                        let got = sink_bytes(&sink);
                        ensure!(got[..] == base[..fault.at.min(base.len())], "not-a-prefix", "operation {i} failed at {}; {} bytes in the sink", fault.at, got.len());
                        failed = true;
                        break;
                    }
                }
            }
            if !failed {
                // the trailer is next
                match enc.into_inner() {
                    Ok(_) => ensure!(sink_fired(&sink) == 0, "error-swallowed", "finishing succeeds although the sink failed"),
                    Err(e) => {
                        ensure!(sink_fired(&sink) > 0, "error-invented", "finishing: {e}");
                        check_write_error(&e, fault.kind)?;
                        failed = true;
                    }
                }
            }
        }
    }
    let got = sink_bytes(&sink);
    let n = got.len().min(base.len()).min(if failed { fault.at } else { usize::MAX });
    ensure!(got[..n] == base[..n], "not-a-prefix", "accepted bytes differ from the fault-free ones");
    ensure!(got.len() <= n + 1 && got[n..].iter().all(|&b| b == 0x3B), "not-a-prefix", "{} bytes beyond the failure", got.len() - n);
    if failed && acked > 0 {
        sim.nontrivial();
    }
    // a crash anywhere: whatever was acknowledged by then is in the file
    let crash = if sim.f(2) == 0 { got.len() } else { pick_fault(sim, &marks, got.len()).at };
    sim.ev("crash", crash as u64, 0);
    if crash < got.len() {
        sim.probe("write fault: crash");
    }
    let frames: Vec<&Spec> = specs(&s);
    let safe = s.ops[..acked].iter().enumerate().filter(|(i, o)| matches!(o, Op::Frame(_)) && marks[i + 1] <= crash).count();
    let cfg = Cfg { rgba: sim.c(2) == 1, ..Cfg::default() };
    let r = SimReader::new(sim, Arc::new(got[..crash].to_vec()), Arc::new(Vec::new()), Delivery::pick(sim));
    let out = drain(sim, &cfg, r, pick_drain(sim));
    ensure!(out.frames.len() >= safe, "acked-lost", "{safe} frames were acknowledged and lie within the {crash} bytes, {} can be decoded: {:?}", out.frames.len(), out.end);
    let global = padded(&s.global);
    for (i, f) in out.frames.iter().enumerate().take(safe) {
        check_round(i, f, frames[i], &global, cfg.rgba)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

pub static C16: Prop = Prop {
    id: "C16",
    run: c16,
    quick_runs: 500_000,
    level: "exploration",
    rule: "drawn script ended by finishing, dropping, or unwinding at a drawn step, against a sink that works or fails at a drawn byte (often the trailer); non-trivial = a sink failure or an unwinding",
    stubs: WRITER_STUB,
    assumptions: &["after a failed call the encoder may still put a trailer behind what was accepted"],
};

fn c16(sim: &Sim) -> Check {
    let s = gen_script(sim, 4, false);
    sim.note(|| describe(&s));
    let (base, marks) = reference(&s)?;
    // how far the script gets, and how it ends
    let steps = if sim.c(2) == 0 { s.ops.len() } else { sim.c(s.ops.len() as u64 + 1) as usize };
    let end = sim.c(3);
    let due = &base[..marks[steps]];
    let fault = match sim.f(3) {
        0 => None,
        1 => Some(WriteFault { at: due.len(), ..pick_fault(sim, &marks[..=steps], due.len()) }),
        _ => Some(pick_fault(sim, &marks[..=steps], due.len())),
    };
    // a sink may also panic, or fail to flush
    let special = sim.f(8);
    let fault = match fault {
        Some(f) if special == 7 && end != 2 => Some(WriteFault { kind: FaultKind::Panic, times: 1, ..f }),
        f => f,
    };
    sim.ev("end", end, steps as u64);
    if let Some(f) = fault {
        sim.ev("plan-fault", f.at as u64, f.kind.code());
    }
    let sink = Sink::default();
    let mut w = writer(sim, &sink).faults(fault.into_iter().collect());
    w.bad_flush = special == 6;
    let flush_failed = || sink.lock().unwrap_or_else(|e| e.into_inner()).flush_failed > 0;
    let mut failed = false;
    let unwound = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Check {
        let mut enc = match Encoder::new(w, s.w, s.h, &s.global) {
            Ok(e) => e,
            Err(_) => {
                failed = true;
                return Ok(());
            }
        };
        for op in &s.ops[..steps] {
            if apply(&mut enc, op).is_err() {
                failed = true;
                break;
            }
            let _ = enc.get_ref();
            let _ = enc.get_mut();
        }
        if failed && sim.c(3) == 2 {
            // the caller does not give up at once
            for op in s.ops.iter().take(2) {
                let _ = apply(&mut enc, op);
            }
            return Ok(());
        }
        match end {
            0 => {
                let before = sink_fired(&sink);
                let len = sink_len(&sink);
                match enc.into_inner() {
                    Ok(w) => {
                        ensure!(sink_fired(&sink) == before, "error-swallowed", "finishing succeeds although the sink failed");
                        ensure!(!sink.lock().map_or(true, |s| s.dropped), "sink-lost", "finishing dropped the sink");
                        ensure!(sink_len(&sink) == len + 1, "trailer", "finishing wrote {} bytes", sink_len(&sink) - len);
                        drop(w);
                        ensure!(sink_len(&sink) == len + 1, "trailer", "{} bytes after the encoder was finished", sink_len(&sink) - len - 1);
                    }
                    Err(e) if flush_failed() && sink_fired(&sink) == before => {
                        ensure!(e.get_ref().map_or(false, |p| p.is::<Payload>()), "error-changed", "{e}");
                        failed = true;
                    }
                    Err(e) => {
                        let Some(f) = fault else { return violation("error-invented", format!("{e}")) };
                        ensure!(sink_fired(&sink) > before, "error-invented", "{e}");
                        check_write_error(&e, f.kind)?;
                        failed = true;
                    }
                }
            }
            1 => drop(enc),
            _ => {
                sim.nontrivial();
                sim.probe("fault: caller unwinds");
                std::panic::resume_unwind(Box::new("simulated panic of the caller"));
            }
        }
        Ok(())
    }));
    match unwound {
        Ok(r) => r?,
        Err(p) => {
            let sinks = p.downcast_ref::<&str>() == Some(&SINK_PANIC) && fault.map_or(false, |f| f.kind == FaultKind::Panic);
            if !sinks && p.downcast_ref::<&str>() != Some(&"simulated panic of the caller") {
                std::panic::resume_unwind(p);
            }
        }
    }
    let got = sink_bytes(&sink);
    if sink_fired(&sink) > 0 {
        sim.nontrivial();
    }
    if sink_fired(&sink) == 0 {
        ensure!(!failed || flush_failed(), "error-invented", "a call failed although the sink did not");
        ensure!(got.len() == due.len() + 1 && got[..due.len()] == *due && got[due.len()] == 0x3B, "trailer", "{} bytes at the end, {} and a trailer are due", got.len(), due.len());
        return Ok(());
    }
    let at = fault.map_or(0, |f| f.at);
    ensure!(got.len() >= at && got[..at] == base[..at], "not-a-prefix", "{} bytes, failure at {at}", got.len());
    if fault.map_or(false, |f| f.times == u32::MAX) {
        ensure!(got.len() == at, "not-a-prefix", "{} bytes, the sink fails for good at {at}", got.len());
    } else if fault.map_or(false, |f| f.kind == FaultKind::Panic) {
        // nothing goes on after it but the end
        ensure!(got.len() <= at + 1 && got[at..].iter().all(|&b| b == 0x3B), "not-a-prefix", "{} bytes after the sink panicked", got.len() - at);
    } else if at == due.len() && end != 0 && steps == s.ops.len() {
        ensure!(got.len() <= at + 1, "trailer", "{} bytes after a failed trailer", got.len() - at);
    }
    ensure!(sink.lock().map_or(false, |s| s.dropped), "sink-lost", "the sink was not dropped");
    Ok(())
}

// ------------------------------------------------------------------ C17

pub static C17: Prop = Prop {
    id: "C17",
    run: c17,
    quick_runs: 500_000,
    level: "exploration",
    rule: "drawn script with invalid calls (too many colours, no palette, buffer too small, enormous size, invalid code size; direct and compressed) in between, through a sink with short writes and interruptions; compared with the same script without them; non-trivial = at least one rejected and one accepted call",
    stubs: WRITER_STUB,
    assumptions: &[],
};

fn c17(sim: &Sim) -> Check {
    let mut s = gen_script(sim, 8, true);
    sim.note(|| describe(&s));
    if sim.w(6) == 5 {
        // the encoder itself with an invalid palette
        let sink = Sink::default();
        let pal = vec![1; 3 * (257 + sim.w(300) as usize)];
        let r = Encoder::new(writer(sim, &sink), s.w, s.h, &pal);
        ensure!(matches!(r, Err(EncodingError::Format(EncodingFormatError::TooManyColors))), "accepted", "a global palette of {} bytes", pal.len());
        drop(r);
        ensure!(sink_len(&sink) == 0, "trace", "{} bytes written by a rejected encoder", sink_len(&sink));
    }
    let have = s.global.len() >= 3;
    // without a palette anywhere
    for op in &mut s.ops {
        if let Op::Bad(5, f) = op {
            f.palette = None;
        }
    }
    s.ops.retain(|o| !(have && matches!(o, Op::Bad(5, _))));
    let clean = Script { ops: s.ops.iter().filter(|o| !matches!(o, Op::Bad(..))).cloned().collect(), ..s.clone() };
    let (mut want, _) = reference(&clean)?;
    want.push(0x3B);
    let sink = Sink::default();
    let mut enc = match Encoder::new(writer(sim, &sink), s.w, s.h, &s.global) {
        Ok(e) => e,
        Err(e) => return violation("refused", format!("{e}")),
    };
    let mut rejected = 0;
    for (i, op) in s.ops.iter().enumerate() {
        let (len, writes) = sink.lock().map_or((0, 0), |s| (s.bytes.len(), s.writes));
        let r = if matches!(op, Op::Bad(5, _)) {
            // no palette at all
            let Op::Bad(_, f) = op else { continue };
            let mut fr = f.frame();
            fr.palette = None;
            if f.how == How::PreEncoded {
                fr.make_lzw_pre_encoded();
                enc.write_lzw_pre_encoded_frame(&fr)
            } else {
                enc.write_frame(&fr)
            }
        } else {
            apply(&mut enc, op)
        };
        let Op::Bad(k, _) = op else {
            if let Err(e) = r {
                return violation("refused", format!("valid operation {i}: {e}"));
            }
            continue;
        };
        rejected += 1;
        sim.ev("rejected", *k, i as u64);
        let Err(e) = r else { return violation("accepted", format!("invalid operation {i} (kind {k}) succeeds")) };
        let right = match (k, &e) {
            (0 | 3, EncodingError::Format(EncodingFormatError::TooManyColors)) => true,
            (1 | 2 | 6, EncodingError::Io(e)) => e.kind() == io::ErrorKind::InvalidInput,
            (4, EncodingError::Format(EncodingFormatError::InvalidMinCodeSize)) => true,
            (5, EncodingError::Format(EncodingFormatError::MissingColorPalette)) => true,
            _ => false,
        };
        ensure!(right, "wrong-error", "invalid operation {i} (kind {k}): {e}");
        let after = sink.lock().map_or((0, 0), |s| (s.bytes.len(), s.writes));
        ensure!(after.0 == len, "trace", "invalid operation {i} (kind {k}) wrote {} bytes", after.0 - len);
        let _ = writes;
    }
    if sim.c(2) == 0 {
        if let Err(e) = enc.into_inner() {
            return violation("refused", format!("finishing: {e}"));
        }
    } else {
        drop(enc);
    }
    let got = sink_bytes(&sink);
    sim.ev("encoded", got.len() as u64, hash_bytes(&got));
    if rejected > 0 && !clean.ops.is_empty() {
        sim.nontrivial();
    }
    ensure!(got == want, "trace", "{} bytes with rejected calls in between, {} without; first difference at {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    Ok(())
}

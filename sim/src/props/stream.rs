//! The push decoder, extensions, strictness options, malformed structure, compressed pass-through.

use super::decode::{check_against_model, check_kept_info, harmless, pick_drain, probes, reader, setup, READER_STUB};
use super::faults::{check_delivered, mutate};
use super::Prop;
use crate::ensure;
use crate::rng::Rng;
use crate::gifgen::{self, gen_blocks, gen_model, gen_unknown, to_rgba, Built, ExpFrame, Gce, Item, Model, Opts};
use crate::lzw;
use crate::rec::*;
use crate::sim::{hash_bytes, violation, Check, Lane, Sim};
use crate::world::{sink_bytes, Accept, Delivery, SimReader, SimWriter, Sink};
use gif::streaming_decoder::{Block, Decoded, FrameDataType, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{AnyExtension, Encoder, Extension, Frame, Repeat, Version};
use std::borrow::Cow;
use std::sync::Arc;

pub const PUSH_STUB: &str = "the caller that feeds bytes and output buffers (simulated)";

// ------------------------------------------------------------------ C09

pub static C09: Prop = Prop {
    id: "C09",
    run: c09,
    quick_runs: 500_000,
    level: "exploration",
    rule: "stream fed to the push decoder in drawn pieces with drawn output buffers; well-formed streams are compared event by event with the model, damaged ones with the events of feeding everything at once; non-trivial = at least 3 update calls and one frame",
    stubs: PUSH_STUB,
    assumptions: &[
        "an output slice is never empty, and once a frame's output is discarded it stays discarded",
        "of the frame in which damaged data is refused, the pixels reported before the error may differ",
        "the push decoder offers no public way to keep frames compressed; that mode is covered by C12",
    ],
};

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Background(u8),
    Palette(Vec<u8>),
    Repeat(Repeat),
    HeaderEnd,
    Block(u8),
    /// label, data as reported by last_ext, last one
    Ext(u8, Vec<u8>, bool),
    Frame(Box<FrameRec>),
    Pixels(Vec<u8>),
    DataEnd,
    Error,
}

impl Ev {
    fn short(&self) -> String {
        match self {
            Ev::Palette(p) => format!("Palette({} bytes)", p.len()),
            Ev::Ext(l, d, e) => format!("Ext({l:#x}, {} bytes #{:08x}, last={e})", d.len(), hash_bytes(d) as u32),
            Ev::Frame(f) => format!("Frame({})", f.short()),
            Ev::Pixels(p) => format!("Pixels({} #{:08x})", p.len(), hash_bytes(p) as u32),
            e => format!("{e:?}"),
        }
    }
}

/// What a large extension has gathered before its end is kept by length and last bytes only: it is
/// reported again with every sub-block.
fn ext_event(label: u8, data: &[u8], last: bool) -> Ev {
    if last || data.len() <= 8192 {
        return Ev::Ext(label, data.to_vec(), last);
    }
    let mut short = data[data.len() - 300..].to_vec();
    short.extend_from_slice(&(data.len() as u64).to_le_bytes());
    Ev::Ext(label, short, false)
}

struct Feed {
    /// 0: everything that is left
    max_in: u64,
    max_out: u64,
    /// discard a frame's output after this many pixels
    discard: Option<Vec<usize>>,
    empty_calls: bool,
}

struct Fed {
    events: Vec<Ev>,
    calls: u64,
    version: Version,
    size: (u16, u16),
}

fn push_event(events: &mut Vec<Ev>, e: Ev) {
    match (events.last_mut(), e) {
        (Some(Ev::Pixels(p)), Ev::Pixels(q)) => p.extend_from_slice(&q),
        (_, e) => events.push(e),
    }
}

fn feed(sim: &Sim, bytes: &[u8], how: &Feed, frames: &[ExpFrame]) -> Check<Fed> {
    let mut d = StreamingDecoder::new();
    let mut events = Vec::new();
    let mut pos = 0;
    let mut calls = 0u64;
    let mut idle = 0;
    let mut out = vec![0u8; 70_000];
    let mut frame = 0usize;
    let mut in_frame = 0usize;
    let pixels: u64 = frames.iter().map(|f| f.pixels.len() as u64).sum();
    // every call with input makes progress: bytes in, pixels out, or one of a few bare events
    let budget = 64 + 8 * (bytes.len() as u64 * 5 + pixels + (1 << 20));
    while pos < bytes.len() {
        let left = bytes.len() - pos;
        let n = if how.max_in == 0 { left } else { left.min(1 + sim.s(how.max_in) as usize) };
        let k = if how.max_out == 0 { out.len() } else { 1 + sim.c(how.max_out) as usize };
        let discard = how.discard.as_ref().map_or(false, |v| v.get(frame).map_or(false, |&at| in_frame >= at));
        if how.empty_calls && sim.c(8) == 7 {
            match d.update(&[], &mut OutputBuffer::Slice(&mut out[..k])) {
                Ok((0, Decoded::Nothing)) => {}
                r => return violation("empty-update", format!("{:?}", r.map(|(n, e)| (n, format!("{e:?}"))).map_err(|e| End::of(&e)))),
            }
        }
        let mut buf = if discard { OutputBuffer::None } else { OutputBuffer::Slice(&mut out[..k]) };
        let r = d.update(&bytes[pos..pos + n], &mut buf);
        calls += 1;
        ensure!(calls < budget, "no-progress", "{calls} calls for {} bytes", bytes.len());
        let (used, ev) = match r {
            Ok(x) => x,
            Err(e) => {
                sim.ev("push-err", calls, 0);
                let _ = e;
                events.push(Ev::Error);
                break;
            }
        };
        ensure!(used <= n, "over-consumed", "{used} of {n} bytes consumed");
        pos += used;
        idle = if used == 0 { idle + 1 } else { 0 };
        let e = match ev {
            Decoded::Nothing => {
                ensure!(used > 0, "no-progress", "nothing consumed, nothing reported, {n} bytes given");
                continue;
            }
            Decoded::GlobalPalette(p) => Ev::Palette(p.into_vec()),
            Decoded::BackgroundColor(c) => Ev::Background(c),
            Decoded::Repetitions(r) => Ev::Repeat(r),
            Decoded::HeaderEnd => Ev::HeaderEnd,
            Decoded::BlockStart(b) => {
                if let Block::Image = b {
                    in_frame = 0;
                }
                Ev::Block(b as u8)
            }
            Decoded::SubBlockFinished(x) => {
                let (id, data, last) = d.last_ext();
                ensure!(id == x && !last, "last-ext", "label {:#x} vs {:#x}, last={last} after SubBlockFinished", id.0, x.0);
                ext_event(x.0, data, false)
            }
            Decoded::BlockFinished(x) => {
                let (id, data, last) = d.last_ext();
                ensure!(id == x && last, "last-ext", "label {:#x} vs {:#x}, last={last} after BlockFinished", id.0, x.0);
                ext_event(x.0, data, true)
            }
            Decoded::FrameMetadata(t) => {
                ensure!(matches!(t, FrameDataType::Pixels), "metadata", "{t:?}");
                Ev::Frame(Box::new(FrameRec::of(d.current_frame())))
            }
            Decoded::BytesDecoded(len) => {
                let len = len.get();
                ensure!(!discard, "output", "{len} bytes reported without an output buffer");
                ensure!(len <= k, "output", "{len} bytes reported for a buffer of {k}");
                idle = 0;
                in_frame += len;
                Ev::Pixels(out[..len].to_vec())
            }
            Decoded::LzwDataCopied(n) => return violation("event", format!("LzwDataCopied({n}) in pixel mode")),
            Decoded::DataEnd => {
                frame += 1;
                in_frame = 0;
                Ev::DataEnd
            }
            e => return violation("event", format!("{e:?}")),
        };
        ensure!(idle < 6, "no-progress", "{idle} calls in a row consumed nothing");
        sim.ev("push", used as u64, events.len() as u64);
        push_event(&mut events, e);
    }
    Ok(Fed { events, calls, version: d.version(), size: (d.width(), d.height()) })
}

fn pick_feed(sim: &Sim, frames: &[ExpFrame], may_discard: bool) -> Feed {
    let max_in = [1, 2, 3, 7, 20, 100, 300, 0, 5000][sim.s(9) as usize];
    let max_out = [0, 1, 2, 5, 30, 300][sim.c(6) as usize];
    let discard = if may_discard && sim.c(3) == 2 {
        Some(frames.iter().map(|f| if sim.c(2) == 0 { usize::MAX } else { sim.c(f.pixels.len() as u64 + 1) as usize }).collect())
    } else {
        None
    };
    Feed { max_in, max_out, discard, empty_calls: sim.c(4) == 3 }
}

fn expected_events(m: &Model, b: &Built) -> Vec<Ev> {
    let mut v = vec![Ev::Background(m.bg), Ev::Palette(m.global.clone().unwrap_or_default())];
    let mut header = true;
    let (mut xi, mut fi) = (0, 0);
    loop {
        let xs = b.exts.get(xi).map(|x| x.start);
        let fs = b.frames.get(fi).map(|f| f.start);
        let ext_first = match (xs, fs) {
            (None, None) => break,
            (Some(x), Some(f)) => x < f,
            (x, _) => x.is_some(),
        };
        if ext_first {
            let x = &b.exts[xi];
            xi += 1;
            v.push(Ev::Block(0x21));
            let mut data = vec![x.blocks.first().map_or(0, |b| b.len() as u8)];
            for (k, bl) in x.blocks.iter().enumerate() {
                data.extend_from_slice(bl);
                v.push(ext_event(x.label, &data, k + 1 == x.blocks.len()));
            }
            if x.blocks.is_empty() {
                v.push(Ev::Ext(x.label, data.clone(), true));
            }
            if x.label == 0xFF && x.blocks.len() >= 2 && x.blocks[0] == b"NETSCAPE2.0" && x.blocks[1].len() >= 3 && x.blocks[1][0] == 1 {
                let n = u16::from_le_bytes([x.blocks[1][1], x.blocks[1][2]]);
                v.push(Ev::Repeat(if n == 0 { Repeat::Infinite } else { Repeat::Finite(n) }));
            }
        } else {
            if std::mem::take(&mut header) {
                v.push(Ev::HeaderEnd);
            }
            fi += 1;
            v.push(Ev::Block(0x2C));
            v.push(Ev::DataEnd); // expanded while comparing
        }
    }
    if header {
        v.push(Ev::HeaderEnd);
    }
    v.push(Ev::Block(0x3B));
    v
}

fn c09(sim: &Sim) -> Check {
    if sim.w(4) == 3 {
        return c09_damaged(sim);
    }
    let mut o = Opts::standard();
    o.min_frames = 0;
    o.excess = true;
    o.odd_mcs = true;
    o.ext_size = 90;
    let (m, b) = setup(sim, &o);
    let how = pick_feed(sim, &b.frames, true);
    let got = feed(sim, &b.bytes, &how, &b.frames)?;
    if got.calls >= 3 && !b.frames.is_empty() {
        sim.nontrivial();
    }
    ensure!(got.size == (m.w, m.h), "screen-size", "{:?}", got.size);
    ensure!((got.version == Version::V89a) == m.v89, "version", "{:?}", got.version);
    let mut it = got.events.iter();
    let mut fi = 0;
    for want in expected_events(&m, &b) {
        if want != Ev::DataEnd {
            let g = it.next();
            ensure!(g == Some(&want), "event", "got {:?} where {} was due", g.map(Ev::short), want.short());
            continue;
        }
        let e = &b.frames[fi];
        let Some(Ev::Frame(f)) = it.next() else { return violation("event", format!("no metadata for frame {fi}")) };
        check_meta(fi, f, e)?;
        ensure!(f.interlaced == e.interlaced && f.buffer.is_empty(), "frame-metadata", "frame {fi}: {}", f.short());
        let mut next = it.next();
        let mut px: &[u8] = &[];
        if let Some(Ev::Pixels(p)) = next {
            px = p;
            next = it.next();
        }
        ensure!(next == Some(&Ev::DataEnd), "event", "frame {fi}: got {:?} where its end was due", next.map(Ev::short));
        let at = how.discard.as_ref().map_or(usize::MAX, |v| v[fi]);
        let n = px.len().min(e.raster.len());
        ensure!(px[..n] == e.raster[..n], "pixels", "frame {fi}: first difference at {:?}", px.iter().zip(&e.raster).position(|(a, b)| a != b));
        ensure!(px.len() >= e.raster.len().min(at), "pixels", "frame {fi}: {} of {} pixels", px.len(), e.raster.len());
        if px.len() > n && at == usize::MAX {
            let all = lzw::decode(&e.lzw, e.mcs, 1 << 22).0;
            ensure!(px == &all[..], "pixels", "frame {fi}: {} pixels, its data holds {}", px.len(), all.len());
        }
        fi += 1;
    }
    let rest = it.next();
    ensure!(rest.is_none(), "event", "{:?} after the trailer", rest.map(Ev::short));
    Ok(())
}

/// The same damaged bytes, at once and in pieces.
fn c09_damaged(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.max_frames = 3;
    o.in_palette = false;
    o.big = false;
    o.unknown_blocks = sim.w(4) == 3;
    let m = gen_model(sim, &o);
    let b = m.build();
    let mut bytes = (*b.bytes).clone();
    let n = 1 + sim.w(5);
    mutate(sim, &mut bytes, &b.frames, n);
    sim.note(|| gifgen::describe(&m));
    sim.ev("stream", bytes.len() as u64, hash_bytes(&bytes));
    sim.probe("damaged stream");
    let whole = feed(sim, &bytes, &Feed { max_in: 0, max_out: 0, discard: None, empty_calls: false }, &b.frames)?;
    let how = pick_feed(sim, &b.frames, false);
    let got = feed(sim, &bytes, &how, &b.frames)?;
    if got.calls >= 3 && !b.frames.is_empty() {
        sim.nontrivial();
    }
    let strip = |v: &[Ev]| -> Vec<Ev> {
        let mut v = v.to_vec();
        // pixels just before an error may be reported or not; the same at the end of the input
        match v.last() {
            Some(Ev::Error) => {
                if let Some(Ev::Pixels(_)) = v.len().checked_sub(2).and_then(|i| v.get(i)) {
                    v.remove(v.len() - 2);
                }
            }
            Some(Ev::Pixels(_)) => {
                v.pop();
            }
            _ => {}
        }
        v
    };
    let (mut a, mut c) = (strip(&whole.events), strip(&got.events));
    // at the end of the input, the code in error may still wait for room in the output buffer
    let waits = |v: &[Ev]| matches!(v.last(), Some(Ev::Pixels(_) | Ev::Frame(_)));
    for (x, other) in [(&mut a, &got.events), (&mut c, &whole.events)] {
        if x.last() == Some(&Ev::Error) && waits(other) {
            x.pop();
            sim.probe("damaged stream ends inside a frame");
        }
    }
    for i in 0..a.len().max(c.len()) {
        ensure!(a.get(i) == c.get(i), "events-differ", "event {i}: {:?} at once, {:?} in pieces", a.get(i).map(Ev::short), c.get(i).map(Ev::short));
    }
    Ok(())
}

// ------------------------------------------------------------------ C22

pub static C22: Prop = Prop {
    id: "C22",
    run: c22,
    quick_runs: 400_000,
    level: "exploration",
    rule: "streams with extensions of any size and sub-block partition at any position (empty ones, look-alikes of the looping extension and loop counts after the first frame included), pushed through the streaming decoder in drawn pieces and decoded with and without them under drawn deliveries; extensions written by the encoder through a sink with short writes and interruptions; non-trivial = at least one extension with data",
    stubs: "input reader, sink, feeding caller (simulated)",
    assumptions: &["only known labels; at most one well-formed looping extension before the first frame"],
};

fn c22(sim: &Sim) -> Check {
    if sim.w(3) == 2 {
        return c22_encode(sim);
    }
    let mut o = Opts::standard();
    o.ext_blocks = 8;
    o.ext_size = 255;
    o.max_frames = 3;
    o.dim = 6;
    o.big = false;
    let mut m = gen_model(sim, &o);
    for _ in 0..sim.w(4) {
        let at = sim.w(m.items.len() as u64 + 1) as usize;
        let after_first = m.items[..at].iter().any(|i| matches!(i, Item::Image(_)));
        let it = match sim.w(3) {
            0 => gifgen::lookalike(sim),
            1 if after_first => Item::Netscape { count: sim.w(9) as u16, more: Vec::new() },
            _ => Item::Ext { label: [0xFE, 0xFF, 1][sim.w(3) as usize], blocks: Vec::new() },
        };
        m.items.insert(at, it);
    }
    let b = m.build();
    sim.note(|| gifgen::describe(&m));
    sim.ev("stream", b.bytes.len() as u64, hash_bytes(&b.bytes));
    if b.exts.iter().any(|x| !x.blocks.is_empty()) {
        sim.nontrivial();
    }
    // every extension once, complete and in order
    let fed = feed(sim, &b.bytes, &pick_feed(sim, &b.frames, false), &b.frames)?;
    let mut got = Vec::new();
    for e in &fed.events {
        match e {
            Ev::Ext(l, d, true) => got.push((*l, d.clone())),
            Ev::Error => return violation("refused", "the streaming decoder refused a well-formed stream"),
            _ => {}
        }
    }
    let want: Vec<(u8, Vec<u8>)> = b
        .exts
        .iter()
        .map(|x| {
            let mut d = vec![x.blocks.first().map_or(0, |b| b.len() as u8)];
            d.extend(x.blocks.concat());
            (x.label, d)
        })
        .collect();
    ensure!(got.len() == want.len(), "extension-count", "{} extensions reported, the stream has {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "extension", "extension {i}: label {:#x} with {} bytes, the stream has {:#x} with {}", g.0, g.1.len(), w.0, w.1.len());
    }
    // frames with and without
    let cfg = harmless(sim, &m, &b, Cfg { rgba: sim.c(2) == 1, skip: sim.c(4) == 3, ..Cfg::default() });
    let how = if cfg.skip { Drain::ReadNextFrame } else { pick_drain(sim) };
    let with = drain(sim, &cfg, reader(sim, &b, true), how);
    check_kept_info(&with)?;
    if !cfg.skip {
        check_against_model(sim, &m, &b, &cfg, &with)?;
    }
    let mut bare = m.clone();
    let mut seen = false;
    bare.items.retain(|i| {
        seen |= matches!(i, Item::Image(_));
        matches!(i, Item::Gce(_) | Item::Image(_)) || !seen && matches!(i, Item::Netscape { .. })
    });
    let bb = bare.build();
    let without = drain(sim, &cfg, reader(sim, &bb, false), how);
    ensure!(with.info == without.info, "info", "{:?} with extensions, {:?} without", with.info, without.info);
    if let Some(d) = diff_frames(&with.frames, &without.frames) {
        return violation("frames", format!("with and without extensions: {d}; ends {:?} / {:?}", with.end, without.end));
    }
    ensure!(with.end == End::Done && without.end == End::Done, "end", "{:?} / {:?}", with.end, without.end);
    Ok(())
}

fn c22_encode(sim: &Sim) -> Check {
    let sink: Sink = Sink::default();
    let mut w = SimWriter::new(sim, &sink, Accept::pick(sim));
    if sim.chance(Lane::Fault, 1, 2) {
        w = w.eintr(1, [2, 4, 10][sim.f(3) as usize]);
    }
    let mut enc = match Encoder::new(w, 10, 10, &[1, 2, 3, 4, 5, 6]) {
        Ok(e) => e,
        Err(e) => return violation("encode", e.to_string()),
    };
    let mut want: Vec<(u8, Vec<u8>)> = Vec::new();
    let n = 1 + sim.w(6);
    let mut frames = 0;
    for _ in 0..n {
        if sim.w(3) == 2 {
            let f = Frame::from_indexed_pixels(3, 2, vec![0, 1, 1, 0, frames as u8 & 1, 1], None);
            if let Err(e) = enc.write_frame(&f) {
                return violation("encode", e.to_string());
            }
            frames += 1;
            continue;
        }
        let label = [0xFE, 0xFF, 1][sim.w(3) as usize];
        let mut parts = gen_blocks(sim, 4, 200);
        for p in &mut parts {
            // slices of any length, also empty and beyond 255
            match sim.w(4) {
                0 => p.clear(),
                1 => {
                    let k = [254, 255, 256, 509, 510, 511, 765, 1000][sim.w(8) as usize];
                    let b = p.clone();
                    *p = b.iter().copied().cycle().take(k).collect();
                }
                _ => {}
            }
        }
        if sim.chance(Lane::Work, 1, 800) {
            sim.probe("scale: enormous extension encoded");
            let mut r = Rng::new(sim.w(1 << 16));
            if sim.w(2) == 1 {
                let n = [255, 256, 257, 1000, 65_535, 65_536, 65_537, 70_000][sim.w(8) as usize];
                // exactly that many, or some of them empty
                let ragged = sim.w(2) == 1;
                parts = (0..n).map(|_| vec![r.next() as u8; if ragged { r.below(4) as usize } else { 1 }]).collect();
            } else {
                let n = [65_025, 65_280, 65_536, 70_000, 131_072, 200_000, 400_000][sim.w(7) as usize];
                parts.push((0..n).map(|_| r.next() as u8).collect());
            }
        }
        let refs: Vec<&[u8]> = parts.iter().map(Vec::as_slice).collect();
        // by number or by name
        let named = match label {
            0xFE => Extension::Comment.into(),
            0xFF => Extension::Application.into(),
            _ => Extension::Text.into(),
        };
        if let Err(e) = enc.write_raw_extension(if sim.w(2) == 1 { named } else { AnyExtension(label) }, &refs) {
            return violation("encode", e.to_string());
        }
        sim.nontrivial();
        want.push((label, parts.concat()));
    }
    if let Err(e) = enc.into_inner() {
        return violation("encode", e.to_string());
    }
    let bytes = sink_bytes(&sink);
    sim.ev("encoded", bytes.len() as u64, hash_bytes(&bytes));
    let fed = feed(sim, &bytes, &pick_feed(sim, &[], false), &[])?;
    let got: Vec<(u8, Vec<u8>)> = fed
        .events
        .iter()
        .filter_map(|e| match e {
            // one control block goes with each frame
            Ev::Ext(l, d, true) if *l != 0xF9 => Some((*l, d[1..].to_vec())),
            _ => None,
        })
        .collect();
    ensure!(!fed.events.contains(&Ev::Error), "refused", "the encoder's stream is refused");
    ensure!(got.len() == want.len(), "extension-count", "{} extensions come out, {} went in", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "extension", "extension {i}: label {:#x} with {} bytes came out, {:#x} with {} went in", g.0, g.1.len(), w.0, w.1.len());
    }
    let images = fed.events.iter().filter(|e| matches!(e, Ev::DataEnd)).count();
    ensure!(images == frames, "frames", "{images} of {frames} frames");
    Ok(())
}

// ------------------------------------------------------------------ C10

pub static C10: Prop = Prop {
    id: "C10",
    run: c10,
    quick_runs: 500_000,
    level: "exploration",
    rule: "streams in which a drawn frame violates a strictness rule (outside the screen, no end code, unknown block), or none does, decoded with drawn options under a drawn delivery, each frame read by a drawn access path (whole, into a buffer, in part, skipped); non-trivial = a violation was placed, or all options were on",
    stubs: READER_STUB,
    assumptions: &["a frame without end code may itself be delivered before the error, which then follows on the next call", "frames without pixels count as outside the screen when their position is"],
};

/// Reads one frame by a drawn path. Ok(None): end; the record's buffer is empty unless all was read.
fn read_some<R: std::io::Read>(sim: &Sim, dec: &mut gif::Decoder<R>, path: u64) -> Result<Option<(FrameRec, bool)>, gif::DecodingError> {
    match path {
        0 => Ok(dec.read_next_frame()?.map(|f| (FrameRec::of(f), true))),
        _ => {
            let Some(f) = dec.next_frame_info()? else { return Ok(None) };
            let mut f = FrameRec::of(f);
            if path == 1 {
                let mut buf = vec![0; dec.buffer_size()];
                dec.read_into_buffer(&mut buf)?;
                f.buffer = buf;
                return Ok(Some((f, true)));
            }
            if path == 2 && dec.buffer_size() > 0 {
                let size = dec.buffer_size();
                let unit = dec.line_length() / f.w.max(1) as usize;
                let n = (sim.c((size / unit) as u64) as usize + 1) * unit;
                let mut buf = vec![0; n];
                dec.fill_buffer(&mut buf)?;
            }
            Ok(Some((f, false)))
        }
    }
}

fn c10(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.max_frames = 5;
    o.missing_end_code = false;
    o.inside = true;
    o.excess = true;
    let kind = sim.w(5);
    // 0 conforming, 1 outside the screen, 2 no end code, 3 unknown block, 4 both of the first two
    let mut m = gen_model(sim, &o);
    let images: Vec<usize> = m.items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Image(_))).map(|(i, _)| i).collect();
    if kind == 1 || kind == 4 {
        for _ in 0..1 + sim.w(2) {
            let k = images[sim.w(images.len() as u64) as usize];
            let (sw, sh) = (m.w, m.h);
            if let Item::Image(im) = &mut m.items[k] {
                match sim.w(6) {
                    // wider or higher than the screen
                    4 => {
                        im.left = 0;
                        m.w = im.w.saturating_sub(1 + sim.w(2) as u16);
                    }
                    5 => {
                        im.top = 0;
                        m.h = im.h.saturating_sub(1 + sim.w(2) as u16);
                    }
                    0 => im.left = sw.saturating_sub(im.w).saturating_add(1),
                    1 => im.top = sh.saturating_sub(im.h).saturating_add(1),
                    2 => im.left = 65535,
                    _ => im.top = sh.saturating_sub(im.h).saturating_add(1 + sim.w(300) as u16),
                }
            }
        }
    }
    if kind == 2 || kind == 4 {
        for _ in 0..1 + sim.w(2) {
            let k = images[sim.w(images.len() as u64) as usize];
            if let Item::Image(im) = &mut m.items[k] {
                im.lzw.end_code = false;
            }
        }
    }
    let mut without = m.clone();
    if kind == 3 {
        for _ in 0..1 + sim.w(3) {
            let at = sim.w(m.items.len() as u64 + 1) as usize;
            m.items.insert(at, gen_unknown(sim, &o));
        }
    }
    without.tail.clear();
    let b = m.build();
    sim.note(|| gifgen::describe(&m));
    sim.ev("stream", b.bytes.len() as u64, hash_bytes(&b.bytes));
    probes(sim, &b);
    let cfg = Cfg {
        rgba: sim.c(2) == 1,
        skip: sim.c(5) == 4,
        consistency: sim.c(3) > 0,
        end_code: sim.c(3) > 0,
        unknown: sim.c(3) > 0,
        limit: None,
    };
    let out = |e: &ExpFrame| u32::from(e.left) + u32::from(e.w) > u32::from(m.w) || u32::from(e.top) + u32::from(e.h) > u32::from(m.h);
    let first_out = if cfg.consistency { b.frames.iter().position(out) } else { None };
    let first_noend = if cfg.end_code && !cfg.skip { b.frames.iter().position(|e| !e.end_code) } else { None };
    let first_unknown = if cfg.unknown { None } else { b.exts.iter().find(|x| x.unknown_block).map(|x| b.frames.iter().filter(|f| f.start < x.start).count()) };
    if kind > 0 || cfg.consistency && cfg.end_code {
        sim.nontrivial();
    }
    // the frame decoder obeys the end code option as well
    if kind == 2 && sim.c(4) == 3 {
        return frame_decoder_end_code(sim, &m, &b, &cfg);
    }
    let mut dec = match cfg.open(reader(sim, &b, false)) {
        Ok(d) => d,
        Err(e) => {
            ensure!(first_unknown == Some(0), "refused", "opening: {:?}", End::of(&e));
            return Ok(());
        }
    };
    let info = Info::of(&dec);
    if first_unknown.is_none() {
        check_info(&info, &m, b.repeat_before_first)?;
    }
    // everything must be refused no later than here
    let mut noend_passed = false;
    for k in 0..=b.frames.len() {
        let due = first_out == Some(k) || first_unknown.map_or(false, |u| u <= k) || noend_passed;
        let path = if cfg.skip { [0, 3][sim.c(2) as usize] } else { sim.c(4) };
        sim.ev("path", path, k as u64);
        let r = read_some(sim, &mut dec, path);
        let at_noend = first_noend == Some(k);
        match r {
            Err(e) => {
                ensure!(due || at_noend, "wrongly-refused", "frame {k}: {:?}", End::of(&e));
                ensure!(!End::of(&e).is_eof(), "wrong-error", "frame {k}: {:?}", End::of(&e));
                sim.ev("refused", k as u64, 0);
                sim.probe(if due && !noend_passed && first_out == Some(k) {
                    "strict: outside the screen refused"
                } else if due && !noend_passed {
                    "strict: unknown block refused"
                } else {
                    "strict: missing end code refused"
                });
                return Ok(());
            }
            Ok(None) => {
                ensure!(!due, "not-refused", "the end is reported; out={first_out:?} noend={first_noend:?} unknown={first_unknown:?}");
                ensure!(k == b.frames.len(), "frame-missing", "the end is reported after {k} of {} frames", b.frames.len());
                return Ok(());
            }
            Ok(Some((f, full))) => {
                ensure!(!due, "not-refused", "frame {k} delivered; out={first_out:?} noend={first_noend:?} unknown={first_unknown:?}");
                ensure!(k < b.frames.len(), "extra-frame", "frame {k}");
                if full {
                    check_delivered(k, &f, &b.frames[k], &m, &cfg)?;
                } else {
                    check_meta(k, &f, &b.frames[k])?;
                }
                noend_passed |= at_noend;
            }
        }
    }
    violation("bad-end", "no end")
}

fn frame_decoder_end_code(sim: &Sim, m: &Model, b: &Built, cfg: &Cfg) -> Check {
    let mut fd = FrameDecoder::new(cfg.options());
    fd.set_global_palette(m.global.clone().unwrap_or_default());
    for _ in 0..1 + sim.c(6) {
        let e = &b.frames[sim.c(b.frames.len() as u64) as usize];
        let mut f = compressed_frame(e);
        let r = fd.decode_lzw_encoded_frame(&mut f);
        sim.ev("frame-decoder", u64::from(e.end_code), u64::from(r.is_ok()));
        if cfg.end_code && !e.end_code {
            ensure!(r.is_err(), "not-refused", "the frame decoder accepts a frame without end code");
        } else {
            ensure!(r.is_ok(), "wrongly-refused", "the frame decoder: {:?}", r.map_err(|e| End::of(&e)));
            let want = if cfg.rgba { e.rgba(m) } else { e.pixels.clone() };
            ensure!(f.buffer[..] == want[..], "pixels", "{}x{} differs", e.w, e.h);
        }
    }
    sim.probe("strict: frame decoder");
    Ok(())
}

fn compressed_frame(e: &ExpFrame) -> Frame<'static> {
    let mut data = vec![e.mcs];
    data.extend_from_slice(&e.lzw);
    Frame {
        left: e.left,
        top: e.top,
        width: e.w,
        height: e.h,
        interlaced: e.interlaced,
        palette: e.local.clone(),
        transparent: e.transparent(),
        buffer: Cow::Owned(data),
        ..Frame::default()
    }
}

// ------------------------------------------------------------------ C11

pub static C11: Prop = Prop {
    id: "C11",
    run: c11,
    quick_runs: 500_000,
    level: "exploration",
    rule: "otherwise well-formed stream with one malformation of a drawn kind at a drawn place, decoded through a drawn access path under a drawn delivery; non-trivial = the malformation comes after at least one frame",
    stubs: READER_STUB,
    assumptions: &["a control block is of the wrong shape when it does not hold four bytes in all", "wrong pixel data is only detected where pixels are decoded"],
};

fn c11(sim: &Sim) -> Check {
    let kind = sim.w(9);
    let mut o = Opts::standard();
    o.max_frames = 5;
    if kind == 6 {
        o.missing_end_code = false;
    }
    if kind == 8 {
        o.min_frames = 0;
        o.max_frames = 0;
    }
    let mut m = gen_model(sim, &o);
    let images: Vec<usize> = m.items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Image(_))).map(|(i, _)| i).collect();
    let at = sim.w(m.items.len() as u64 + 1) as usize;
    let before = |m: &Model, at: usize| m.items[..at].iter().filter(|i| matches!(i, Item::Image(_))).count();
    let mut skip_ok = true;
    // frames that must be delivered, and whether opening may fail
    let (good, open_fails) = match kind {
        0 => (0, true),
        1 => {
            let n = before(&m, at);
            m.items.insert(at, gen_unknown(sim, &o));
            (n, n == 0)
        }
        2 => {
            let n = before(&m, at);
            let label = [0x00, 0x02, 0x2C, 0x3B, 0xF8, 0xFA, 0xFD, 0x21, 0x42][sim.w(9) as usize];
            m.items.insert(at, Item::Ext { label, blocks: gen_blocks(sim, 3, 20) });
            (n, n == 0)
        }
        3 => {
            let n = before(&m, at);
            let mut blocks = gen_blocks(sim, 3, 9);
            if blocks.concat().len() == 4 {
                blocks.push(vec![0]);
            }
            m.items.insert(at, Item::Ext { label: 0xF9, blocks });
            (n, n == 0)
        }
        4 => {
            let k = sim.w(images.len() as u64) as usize;
            if let Item::Image(im) = &mut m.items[images[k]] {
                im.raw_mcs = Some([0, 12, 13, 16, 64, 128, 255][sim.w(7) as usize]);
            }
            (k, false)
        }
        5 | 6 => {
            skip_ok = false;
            let k = sim.w(images.len() as u64) as usize;
            if let Item::Image(im) = &mut m.items[images[k]] {
                let n = im.pixels.len() as u64;
                if n == 0 || !(2..=8).contains(&im.lzw.min_code_size) {
                    return Ok(());
                }
                if kind == 5 {
                    im.bad_code_after = Some(sim.w(n) as usize);
                } else {
                    im.missing = 1 + sim.w(n) as u32;
                    im.lzw.junk = 0;
                }
            }
            (k, false)
        }
        7 => {
            let k = sim.w(images.len() as u64) as usize;
            m.global = None;
            for (i, &p) in images.iter().enumerate() {
                if let Item::Image(im) = &mut m.items[p] {
                    if i == k {
                        im.local = None;
                    } else if im.local.is_none() {
                        im.local = Some(gifgen::gen_palette(sim, 7));
                    }
                }
            }
            (k, false)
        }
        _ => (0, true),
    };
    let b = m.build();
    sim.note(|| format!("kind {kind}: {}", gifgen::describe(&m)));
    let mut bytes = (*b.bytes).clone();
    if kind == 0 {
        match sim.w(3) {
            0 => bytes[sim.w(3) as usize] ^= 1 << sim.w(8),
            1 => bytes[3 + sim.w(3) as usize] ^= 1 << sim.w(8),
            _ => bytes[..6].copy_from_slice([b"GIF88a", b"GIF89b", b"gif89a", b"\x89PNG\r\n"][sim.w(4) as usize]),
        }
        if &bytes[..6] == b"GIF87a" || &bytes[..6] == b"GIF89a" {
            return Ok(());
        }
    }
    sim.ev("stream", bytes.len() as u64, hash_bytes(&bytes));
    sim.ev("malformed", kind, good as u64);
    sim.probe(
        [
            "malformed: signature",
            "malformed: unknown block",
            "malformed: unknown extension",
            "malformed: control block shape",
            "malformed: code size",
            "malformed: invalid code",
            "malformed: pixels missing",
            "malformed: no palette",
            "malformed: no image data",
        ][kind as usize],
    );
    if good > 0 {
        sim.nontrivial();
    }
    let cfg = Cfg { rgba: sim.c(2) == 1, skip: skip_ok && sim.c(5) == 4, end_code: false, limit: wide_limit(sim), ..Cfg::default() };
    let how = if cfg.skip { [Drain::ReadNextFrame, Drain::Iterator][sim.c(2) as usize] } else { pick_drain(sim) };
    let r = SimReader::new(sim, Arc::new(bytes), b.bounds.clone(), Delivery::pick(sim));
    let out = drain(sim, &cfg, r, how);
    for (i, f) in out.frames.iter().enumerate() {
        ensure!(i < good, "accepted", "malformed frame or frame after a malformed structure delivered: frame {i} [{}]", f.short());
        check_delivered(i, f, &b.frames[i], &m, &cfg)?;
    }
    if kind == 8 {
        ensure!(out.frames.is_empty(), "accepted", "frames in a stream without image data");
        return Ok(());
    }
    ensure!(out.frames.len() == good, "refused-early", "{} frames delivered, {good} come before the malformed structure; {:?}", out.frames.len(), out.end);
    ensure!(out.info.is_some() || open_fails, "refused-early", "opening failed: {:?}", out.end);
    match &out.end {
        End::Format(_) | End::Io(std::io::ErrorKind::InvalidData, _) => Ok(()),
        e => violation("not-refused", format!("the stream is malformed after {good} frames, the outcome is {e:?}")),
    }
}

// ------------------------------------------------------------------ C12

pub static C12: Prop = Prop {
    id: "C12",
    run: c12,
    quick_runs: 350_000,
    level: "exploration",
    rule: "well-formed stream read in compressed form under a drawn delivery, its frames decoded later in a drawn order (also repeatedly, with one decoder) and remuxed through a sink with short writes and interruptions, then decoded again; non-trivial = at least one frame with pixels",
    stubs: "input reader, sink, consumer (simulated)",
    assumptions: &["code sizes 9 to 11 are remuxed too; code size 1 is not generated"],
};

fn c12(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.max_frames = 5;
    o.excess = true;
    o.odd_mcs = true;
    o.tail = false;
    o.unknown_blocks = sim.w(4) == 3;
    let (m, b) = setup(sim, &o);
    let cfg = harmless(sim, &m, &b, Cfg { skip: true, rgba: sim.c(2) == 1, limit: wide_limit(sim), ..Cfg::default() });
    let how = [Drain::ReadNextFrame, Drain::Iterator][sim.c(2) as usize];
    // gather as frames, not records: these are handed on
    let mut frames: Vec<Frame<'static>> = Vec::new();
    let dec = match cfg.open(reader(sim, &b, true)) {
        Ok(d) => d,
        Err(e) => return violation("refused", format!("{:?}", End::of(&e))),
    };
    let info = Info::of(&dec);
    check_info(&info, &m, b.repeat_before_first)?;
    let mut meta_only = Vec::new();
    if how == Drain::Iterator {
        for f in dec {
            match f {
                Ok(f) => frames.push(f),
                Err(e) => return violation("error", format!("frame {}: {:?}", frames.len(), End::of(&e))),
            }
            meta_only.push(false);
        }
    } else {
        let mut dec = dec;
        loop {
            // sometimes only the metadata of a frame is wanted
            let only = sim.c(5) == 4;
            let r = if only { dec.next_frame_info() } else { dec.read_next_frame() };
            match r {
                Ok(Some(f)) => frames.push(f.clone()),
                Ok(None) => break,
                Err(e) => return violation("error", format!("frame {}: {:?}", frames.len(), End::of(&e))),
            }
            meta_only.push(only);
        }
    }
    ensure!(frames.len() == b.frames.len(), "frame-missing", "{} of {} frames", frames.len(), b.frames.len());
    for (i, f) in frames.iter_mut().enumerate() {
        let e = &b.frames[i];
        let rec = FrameRec::of(f);
        if meta_only[i] {
            check_meta(i, &rec, e)?;
            ensure!(rec.buffer.is_empty(), "compressed-data", "frame {i}: data without asking");
            let mut d = vec![e.mcs];
            d.extend_from_slice(&e.lzw);
            f.buffer = Cow::Owned(d);
        } else {
            check_delivered(i, &rec, e, &m, &cfg)?;
        }
        sim.ev("frame", i as u64, hash_bytes(&f.buffer));
        if !e.pixels.is_empty() {
            sim.nontrivial();
        }
    }
    // decode later, in any order
    let mut fd = FrameDecoder::new(Cfg { skip: sim.c(2) == 1, ..cfg.clone() }.options());
    if let Some(g) = &info.global {
        fd.set_global_palette(g.clone());
    }
    for _ in 0..frames.len() + sim.c(3) as usize {
        let i = sim.c(frames.len() as u64) as usize;
        let e = &b.frames[i];
        let want = if cfg.rgba { e.rgba(&m) } else { e.pixels.clone() };
        let mut f = frames[i].clone();
        if sim.c(5) == 4 {
            // frames of another stream in between: their palette, then again this one's
            let other = [&[][..], &[7; 6], &[9; 12], &[200; 768]][sim.c(4) as usize];
            fd.set_global_palette(other.to_vec());
            let mut g = f.clone();
            if fd.decode_lzw_encoded_frame(&mut g).is_ok() && cfg.rgba {
                let pal = e.local.as_deref().unwrap_or(other);
                ensure!(g.buffer[..] == to_rgba(&e.pixels, pal, e.transparent())[..], "other-palette", "frame {i} with another global palette");
            }
            sim.probe("frame decoder: palette changed");
            fd.set_global_palette(info.global.clone().unwrap_or_default());
        }
        if sim.c(5) == 4 {
            // a frame that may well be refused must leave nothing behind in the decoder
            let mut g = f.clone();
            match sim.c(5) {
                0 => g.buffer.to_mut()[0] = [0, 12, 255][sim.c(3) as usize],
                1 => {
                    let n = sim.c(g.buffer.len() as u64) as usize;
                    g.buffer.to_mut().truncate(n + 1);
                }
                2 => {
                    let k = sim.c(g.buffer.len() as u64) as usize;
                    g.buffer.to_mut()[k] ^= 1 << sim.c(8);
                }
                3 => g.height = g.height.saturating_add(1 + sim.c(5) as u16),
                _ => (g.width, g.height) = (65535, 65535),
            }
            let mut small = vec![0; want.len().saturating_sub(1)];
            let r = match sim.c(2) {
                0 if usize::from(g.width) * usize::from(g.height) <= 20_000_000 => fd.decode_lzw_encoded_frame(&mut g),
                _ => fd.decode_lzw_encoded_frame_into_buffer(&g, &mut small),
            };
            sim.ev("frame-decoder-bad", i as u64, r.is_err().into());
            if r.is_err() {
                sim.probe("frame decoder used after an error");
            }
        }
        ensure!(fd.buffer_size(&f) == want.len(), "buffer-size", "frame {i}: {} for {}", fd.buffer_size(&f), want.len());
        if sim.c(3) == 2 {
            let extra = sim.c(9) as usize;
            let mut buf = vec![0; want.len() + extra];
            if let Err(e) = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf) {
                return violation("frame-decoder", format!("frame {i}: {:?}", End::of(&e)));
            }
            ensure!(buf[..want.len()] == want[..], "frame-decoder", "frame {i}: pixels differ from direct decoding");
            ensure!(buf[want.len()..].iter().all(|&b| b == 0), "frame-decoder", "frame {i}: bytes beyond the frame were written");
        } else {
            if let Err(e) = fd.decode_lzw_encoded_frame(&mut f) {
                return violation("frame-decoder", format!("frame {i}: {:?}", End::of(&e)));
            }
            ensure!(f.buffer[..] == want[..], "frame-decoder", "frame {i}: pixels differ from direct decoding");
            ensure!(!f.interlaced, "frame-decoder", "frame {i} is in row order but still marked interlaced");
        }
        sim.ev("frame-decoder", i as u64, 0);
    }
    // write them to a new stream
    let sink: Sink = Sink::default();
    let mut w = SimWriter::new(sim, &sink, Accept::pick(sim));
    if sim.chance(Lane::Fault, 1, 2) {
        w = w.eintr(1, [2, 4, 10][sim.f(3) as usize]);
    }
    let r = (|| {
        let mut enc = Encoder::new(w, info.w, info.h, info.global.as_deref().unwrap_or(&[]))?;
        enc.set_repeat(info.repeat)?;
        for f in &frames {
            enc.write_lzw_pre_encoded_frame(f)?;
        }
        enc.into_inner().map_err(gif::EncodingError::from)
    })();
    if let Err(e) = r {
        return violation("remux", format!("writing compressed frames failed: {e}"));
    }
    let bytes = Arc::new(sink_bytes(&sink));
    sim.ev("remuxed", bytes.len() as u64, hash_bytes(&bytes));
    let cfg2 = Cfg { skip: false, ..cfg };
    let out = drain(sim, &cfg2, SimReader::new(sim, bytes, Arc::new(Vec::new()), Delivery::pick(sim)), pick_drain(sim));
    let Some(i2) = &out.info else { return violation("remux", format!("the remuxed stream is refused: {:?}", out.end)) };
    ensure!((i2.w, i2.h, i2.repeat) == (info.w, info.h, info.repeat), "remux", "{:?} vs {:?}", i2, info);
    if info.global.is_some() {
        ensure!(i2.global == info.global, "remux", "the global palette differs");
    }
    ensure!(out.frames.len() == b.frames.len() && out.end == End::Done, "remux", "{} of {} frames, {:?}", out.frames.len(), b.frames.len(), out.end);
    let mut m2 = m.clone();
    m2.global = i2.global.clone();
    for (i, f) in out.frames.iter().enumerate() {
        // the encoder always writes a control block
        let mut e = b.frames[i].clone();
        let g = e.gce.get_or_insert(Gce { disposal: 4, user_input: false, transparent: None, junk_index: 0, delay: 0, reserved: 0 });
        let _ = g;
        check_frame(i, f, &e, &m2, cfg2.rgba)?;
    }
    Ok(())
}


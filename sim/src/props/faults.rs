//! Decoding when the environment fails: cuts, read errors, hostile bytes, memory limits, stalls,
//! failing allocations.

use super::decode::{harmless, reader, setup, READER_STUB};
use super::Prop;
use crate::ensure;
use crate::gifgen::{self, gen_model, interlace, Built, ExpFrame, Item, Model, Opts};
use crate::rec::*;
use crate::rng::Rng;
use crate::sim::{hash_bytes, violation, Check, Lane, Sim};
use crate::world::{Delivery, ReadFault, FaultKind, SimReader};
use gif::streaming_decoder::{Decoded, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{DecodingError, Frame};
use std::borrow::Cow;
use std::io;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

/// A frame delivered in the given mode against the model.
pub fn check_delivered(i: usize, got: &FrameRec, e: &ExpFrame, m: &Model, cfg: &Cfg) -> Check {
    if cfg.skip {
        check_meta(i, got, e)?;
        ensure!(got.interlaced == e.interlaced, "interlace-flag", "frame {i}: {} in compressed form", got.interlaced);
        ensure!(got.buffer.first() == Some(&e.mcs), "compressed-data", "frame {i}: code size {:?}, the stream says {}", got.buffer.first(), e.mcs);
        ensure!(
            got.buffer[1..] == e.lzw[..],
            "compressed-data",
            "frame {i}: {} compressed bytes differ from the stream's {}, first at {:?}",
            got.buffer.len() - 1,
            e.lzw.len(),
            got.buffer[1..].iter().zip(&e.lzw).position(|(a, b)| a != b)
        );
        Ok(())
    } else {
        check_frame(i, got, e, m, cfg.rgba)
    }
}

/// An interesting byte offset: at or near a structure boundary, or anywhere.
pub fn pick_offset(sim: &Sim, lane: Lane, b: &Built, max: usize) -> usize {
    match sim.draw(lane, 4) {
        0 => sim.draw(lane, max as u64 + 1) as usize,
        k => {
            let at = b.bounds[sim.draw(lane, b.bounds.len() as u64) as usize].0;
            let d = sim.draw(lane, 3) as usize;
            match k {
                1 => at,
                2 => at + d,
                _ => (at + 1).saturating_sub(d),
            }
        }
    }
    .min(max)
}

// ------------------------------------------------------------------ C04

pub static C04: Prop = Prop {
    id: "C04",
    run: c04,
    quick_runs: 450_000,
    level: "exploration",
    rule: "well-formed stream cut at a drawn byte before its trailer (mostly near structure boundaries), decoded under a drawn delivery through a drawn access path, then asked again; non-trivial = the cut lies after the header and before the trailer",
    stubs: READER_STUB,
    assumptions: &["a frame all of whose pixels arrived but whose data is not terminated may be delivered or not"],
};

fn c04(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.tail = false;
    o.excess = true;
    o.unknown_blocks = sim.w(4) == 3;
    let (m, b) = setup(sim, &o);
    let cut = pick_offset(sim, Lane::Fault, &b, b.trailer);
    sim.ev("cut", cut as u64, 0);
    sim.probe("read fault: input cut off");
    if cut > b.header_end && cut < b.trailer {
        sim.nontrivial();
    }
    let cfg = harmless(sim, &m, &b, Cfg { rgba: sim.c(2) == 1, skip: sim.c(4) == 3, ..Cfg::default() });
    let complete = b.frames.iter().filter(|f| f.end <= cut).count();
    let mut r = SimReader::new(sim, Arc::new(b.bytes[..cut].to_vec()), b.bounds.clone(), Delivery::pick(sim));
    if sim.chance(Lane::Fault, 1, 3) {
        r = r.eintr(1, [2, 4, 10, 40][sim.f(4) as usize]);
    }
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => {
            let e = End::of(&e);
            sim.ev("open-err", 0, 0);
            ensure!(e.is_eof(), "wrong-error", "opening a stream cut at {cut} reports {e:?}");
            ensure!(complete == 0, "frame-lost", "the stream is cut at {cut}, after {complete} complete frames, and cannot be opened");
            return Ok(());
        }
    };
    ensure!(cut > b.header_end, "invented", "opened although the header is cut at {cut}");
    let info = Info::of(&dec);
    check_info(&info, &m, b.repeat_before_first)?;
    let take = |i: usize, got: &FrameRec| -> Check {
        let Some(e) = b.frames.get(i) else {
            return violation("invented", format!("frame {i} delivered, the stream has {}", b.frames.len()));
        };
        ensure!(e.mcs_off < cut, "invented", "frame {i} delivered although the input ends before its data");
        check_delivered(i, got, e, &m, &cfg)
    };
    let mut n = 0;
    let how = sim.c(3);
    if how == 1 {
        let mut it = dec.into_iter();
        let end = loop {
            match it.next() {
                Some(Ok(f)) => {
                    take(n, &FrameRec::of(&f))?;
                    n += 1;
                    sim.ev("frame", n as u64, hash_bytes(&f.buffer));
                }
                Some(Err(e)) => break End::of(&e),
                None => return violation("orderly-end", format!("iteration ended without an error, input cut at {cut} of {}", b.trailer + 1)),
            }
        };
        ensure!(end.is_eof(), "wrong-error", "{end:?} for a stream cut at {cut}");
        for _ in 0..3 {
            ensure!(it.next().is_none(), "iterator-latch", "the iterator yields something after its error");
        }
    } else {
        let end = loop {
            let r = if how == 0 || cfg.skip {
                dec.read_next_frame().map(|f| f.map(FrameRec::of))
            } else {
                match dec.next_frame_info().map(|f| f.map(FrameRec::of)) {
                    Ok(Some(mut f)) => {
                        let mut buf = vec![0; dec.buffer_size()];
                        dec.read_into_buffer(&mut buf).map(|()| {
                            f.buffer = buf;
                            Some(f)
                        })
                    }
                    r => r,
                }
            };
            match r {
                Ok(Some(f)) => {
                    take(n, &f)?;
                    n += 1;
                    sim.ev("frame", n as u64, hash_bytes(&f.buffer));
                }
                Ok(None) => return violation("orderly-end", format!("an orderly end is reported, input cut at {cut} of {}", b.trailer + 1)),
                Err(e) => break End::of(&e),
            }
        };
        ensure!(end.is_eof(), "wrong-error", "{end:?} for a stream cut at {cut}");
        for _ in 0..3 {
            let r = match sim.c(2) {
                0 => dec.read_next_frame().map(|f| f.is_some()),
                _ => dec.next_frame_info().map(|f| f.is_some()),
            };
            match r {
                Ok(true) => return violation("invented", format!("a frame after the end of input at {cut}")),
                Ok(false) => return violation("orderly-end", format!("asked again, an orderly end is reported; input cut at {cut} of {}", b.trailer + 1)),
                Err(e) => {
                    let e = End::of(&e);
                    ensure!(e.is_eof(), "wrong-error", "asked again: {e:?} for a stream cut at {cut}");
                }
            }
        }
    }
    sim.ev("cut-end", n as u64, 0);
    ensure!(n >= complete, "frame-lost", "{n} frames delivered, {complete} are complete before the cut at {cut}");
    Ok(())
}

// ------------------------------------------------------------------ C05

pub static C05: Prop = Prop {
    id: "C05",
    run: c05,
    quick_runs: 450_000,
    level: "exploration",
    rule: "well-formed stream, 1 to 5 read faults placed mostly near structure boundaries, interruptions; the consumer asks again after each error; non-trivial = at least one fault fired after opening",
    stubs: READER_STUB,
    assumptions: &["opening consumes the reader, so an error while opening ends the run after it was checked", "a frame may be lost only when an error struck inside its own compressed data"],
};

fn check_surfaced(e: &DecodingError, k: FaultKind) -> Check {
    let DecodingError::Io(e) = e else {
        return violation("error-changed", format!("the reader failed with {k:?}, reported as a format error: {e}"));
    };
    k.check(e, false).or_else(|d| violation("error-changed", d))
}

/// Is `got` a subsequence of the model's frames that leaves out only the frames in `may_lose`?
fn subsequence(got: &[FrameRec], b: &Built, m: &Model, cfg: &Cfg, may_lose: &[bool]) -> bool {
    // how many delivered frames may be accounted for by the frames so far
    let mut reach = vec![0usize];
    for (fi, &lose) in may_lose.iter().enumerate() {
        let mut next = Vec::with_capacity(reach.len() + 1);
        for &gi in &reach {
            if lose && next.last() != Some(&gi) {
                next.push(gi);
            }
            if gi < got.len() && check_delivered(fi, &got[gi], &b.frames[fi], m, cfg).is_ok() {
                next.push(gi + 1);
            }
        }
        reach = next;
    }
    reach.contains(&got.len())
}

fn c05(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.max_frames = 5;
    o.unknown_blocks = sim.w(4) == 3;
    let (m, b) = setup(sim, &o);
    let cfg = harmless(sim, &m, &b, Cfg { rgba: sim.c(2) == 1, skip: sim.c(4) == 3, ..Cfg::default() });
    let n = 1 + sim.f(5) as usize;
    let mut faults: Vec<ReadFault> = (0..n)
        .map(|_| {
            let kind = FaultKind::pick(sim);
            let times = [1, 1, 1, 2, 3][sim.f(5) as usize];
            let mut at = pick_offset(sim, Lane::Fault, &b, b.trailer);
            // opening can fail only once
            if at <= b.first_nonext + 1 && sim.f(8) != 7 {
                at = (b.first_nonext + 2 + at * 3).min(b.trailer);
            }
            ReadFault { at, kind, times }
        })
        .collect();
    faults.sort_by_key(|f| f.at);
    for f in &faults {
        sim.ev("plan-fault", f.at as u64, f.kind.code());
    }
    let queue: Vec<FaultKind> = faults.iter().flat_map(|f| (0..f.times).map(|_| f.kind)).collect();
    let may_lose: Vec<bool> = b.frames.iter().map(|e| faults.iter().any(|f| f.at > e.mcs_off && f.at < e.end)).collect();
    let mut r = SimReader::new(sim, b.bytes.clone(), b.bounds.clone(), Delivery::pick(sim)).faults(faults.clone());
    if sim.chance(Lane::Fault, 1, 2) {
        r = r.eintr(1, [2, 4, 10, 40][sim.f(4) as usize]);
    }
    let view = r.view();
    let fired = || view.faults_fired.load(SeqCst);
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => {
            ensure!(fired() == 1, "error-invented", "opening a well-formed stream failed without a fault: {:?}", End::of(&e));
            return check_surfaced(&e, queue[0]);
        }
    };
    ensure!(fired() == 0, "error-swallowed", "opened although the reader failed {} times", fired());
    check_info(&Info::of(&dec), &m, b.repeat_before_first)?;
    let mut surfaced = 0;
    let mut got: Vec<FrameRec> = Vec::new();
    let budget = b.frames.len() + queue.len() + 2;
    let mut calls = 0;
    loop {
        calls += 1;
        ensure!(calls <= budget, "no-progress", "{calls} calls for {} frames and {} errors, and no end", b.frames.len(), queue.len());
        let path = if cfg.skip { 0 } else { sim.c(3) };
        let res = if path < 2 {
            dec.read_next_frame().map(|f| f.map(FrameRec::of))
        } else {
            match dec.next_frame_info().map(|f| f.map(FrameRec::of)) {
                Ok(Some(mut f)) => {
                    let mut buf = vec![0; dec.buffer_size()];
                    dec.read_into_buffer(&mut buf).map(|()| {
                        f.buffer = buf;
                        Some(f)
                    })
                }
                r => r,
            }
        };
        match res {
            Ok(f) => {
                ensure!(fired() == surfaced, "error-swallowed", "{} read errors, {surfaced} reported", fired());
                match f {
                    Some(f) => {
                        sim.ev("frame", got.len() as u64 + 1, hash_bytes(&f.buffer));
                        got.push(f);
                        ensure!(got.len() <= b.frames.len(), "extra-frame", "more frames than the stream has");
                    }
                    None => break,
                }
            }
            Err(e) => {
                sim.ev("surfaced", surfaced as u64, 0);
                sim.nontrivial();
                ensure!(fired() == surfaced + 1, "error-invented", "{} read errors so far, this is the {}th report: {:?}", fired(), surfaced + 1, End::of(&e));
                check_surfaced(&e, queue[surfaced])?;
                surfaced += 1;
            }
        }
    }
    if !subsequence(&got, &b, &m, &cfg, &may_lose) {
        // say what is wrong as precisely as possible
        let mut k = 0;
        for (i, g) in got.iter().enumerate() {
            while k < b.frames.len() && may_lose[k] && check_delivered(k, g, &b.frames[k], &m, &cfg).is_err() {
                k += 1;
            }
            if k >= b.frames.len() {
                return violation("frame-altered", format!("delivered frame {i} [{}] is none of the stream's remaining frames", g.short()));
            }
            check_delivered(k, g, &b.frames[k], &m, &cfg)?;
            k += 1;
        }
        return violation("frame-lost", format!("{} of {} frames delivered; only frames {:?} had an error inside their data", got.len(), b.frames.len(), may_lose));
    }
    for _ in 0..2 {
        match dec.read_next_frame() {
            Ok(None) => {}
            Ok(Some(_)) => return violation("extra-frame", "a frame after the end"),
            Err(e) => return violation("error-invented", format!("after the end: {:?}", End::of(&e))),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

pub static C06: Prop = Prop {
    id: "C06",
    run: c06,
    quick_runs: 600_000,
    level: "exploration",
    rule: "mutated streams and noise, a drawn option set and memory limit, drawn read faults, and a drawn sequence of API calls that goes on after errors, on the pull, streaming and frame decoders; non-trivial = at least 3 calls were made after opening",
    stubs: READER_STUB,
    assumptions: &["the streaming decoder is given the unconsumed bytes again, as its contract demands"],
};

pub fn mutate(sim: &Sim, bytes: &mut Vec<u8>, frames: &[ExpFrame], n: u64) {
    for _ in 0..n {
        if bytes.is_empty() {
            return;
        }
        let len = bytes.len() as u64;
        // prefer structure over pixel data
        let mut p = sim.w(len) as usize;
        if sim.w(3) > 0 && !frames.is_empty() {
            let f = &frames[sim.w(frames.len() as u64) as usize];
            p = match sim.w(5) {
                0 => f.start + sim.w(10) as usize,
                1 => f.mcs_off,
                2 => f.mcs_off + 1,
                3 => f.start.saturating_sub(sim.w(9) as usize),
                _ => f.end.saturating_sub(sim.w(3) as usize),
            }
            .min(bytes.len() - 1);
        }
        match sim.w(8) {
            0 => bytes[p] ^= 1 << sim.w(8),
            1 => bytes[p] = [0, 1, 0xFF, 0x80, 0x7F, 12, 0x3B, 0x21, 0x2C, 0xF9][sim.w(10) as usize],
            2 => bytes[p] = sim.w(256) as u8,
            3 => {
                bytes.remove(p);
            }
            4 => bytes.insert(p, sim.w(256) as u8),
            5 => {
                let q = sim.w(len) as usize;
                let k = (1 + sim.w(30) as usize).min(bytes.len() - q);
                let piece = bytes[q..q + k].to_vec();
                let at = p.min(bytes.len());
                bytes.splice(at..at, piece);
            }
            6 => bytes.truncate(p + 1),
            _ => {
                let k = (1 + sim.w(30) as usize).min(bytes.len() - p);
                let mut r = Rng::new(sim.w(1 << 16));
                for b in &mut bytes[p..p + k] {
                    *b = r.next() as u8;
                }
            }
        }
    }
}

fn hostile(sim: &Sim) -> (Vec<u8>, Model, Built) {
    let mut o = Opts::standard();
    o.in_palette = false;
    o.excess = true;
    o.odd_mcs = true;
    o.unknown_blocks = true;
    o.max_frames = 3;
    let mut m = gen_model(sim, &o);
    for it in &mut m.items {
        if let Item::Image(im) = it {
            match sim.w(12) {
                8 => im.missing = sim.w(40) as u32,
                9 => im.bad_code_after = Some(sim.w(im.pixels.len() as u64 + 1) as usize),
                10 => im.raw_mcs = Some(sim.w(14) as u8),
                _ => {}
            }
            if im.bad_code_after.is_some() && !(2..=8).contains(&im.lzw.min_code_size) {
                im.bad_code_after = None;
            }
        }
    }
    if sim.chance(Lane::Work, 1, 6) {
        m.global = None;
    }
    let b = m.build();
    let mut bytes = (*b.bytes).clone();
    match sim.weighted(Lane::Work, &[1, 6, 2]) {
        0 => {}
        1 => {
            let n = 1 + sim.w(6);
            mutate(sim, &mut bytes, &b.frames, n);
        }
        _ => {
            // noise after some true prefix
            let keep = sim.w(bytes.len() as u64 + 1) as usize;
            bytes.truncate(keep);
            let mut r = Rng::new(sim.w(1 << 20));
            let n = sim.w(400);
            let zeroish = sim.w(3);
            for _ in 0..n {
                let v = r.next();
                bytes.push(match (zeroish, v >> 40 & 3) {
                    (1, 0 | 1) => 0,
                    (2, 0) => [0x21, 0x2C, 0x3B, 0xF9, 0xFF, 0xFE, 0, 4][(v >> 50 & 7) as usize],
                    _ => v as u8,
                });
            }
        }
    }
    (bytes, m, b)
}

/// A stream that repeats one small structure very often: recursion per structure or work that
/// grows with the square of the input would show as a stack overflow or as a stall.
///
/// The number is that of the frames if this is a valid stream with nothing near a limit.
fn bomb(sim: &Sim, cfg: &Cfg) -> (Vec<u8>, &'static str, Option<u64>) {
    let mut v = b"GIF89a\x08\0\x08\0\x80\0\0\0\0\0\xff\xff\xff".to_vec();
    let what = sim.weighted(Lane::Work, &[1; 12]);
    let n = [70_000usize, 150_000, 250_000][sim.w(3) as usize];
    let image = |w: u16, h: u16, flags: u8| {
        let [wl, wh] = w.to_le_bytes();
        let [hl, hh] = h.to_le_bytes();
        [0x2C, 0, 0, 0, 0, wl, wh, hl, hh, flags]
    };
    let repeat = |v: &mut Vec<u8>, unit: &[u8]| {
        for _ in 0..n {
            v.extend_from_slice(unit);
        }
    };
    let name = match what {
        0 => {
            repeat(&mut v, &[0x21, 0xFE, 0]);
            "empty comments"
        }
        1 => {
            repeat(&mut v, &[0x21, 0xFF, 0]);
            "empty application blocks"
        }
        2 => {
            let mut u = image(0, 0, 0).to_vec();
            u.extend([2, 0]);
            repeat(&mut v, &u);
            "empty images"
        }
        3 => {
            repeat(&mut v, &[0x21, 0xF9, 4, 1, 0, 0, 0, 0]);
            "control extensions"
        }
        4 => {
            repeat(&mut v, &[0x40, 0]);
            "unknown blocks"
        }
        5 => {
            v.extend([0x21, 0xFE]);
            repeat(&mut v, &[1, b'x']);
            v.push(0);
            "extension of one-byte pieces"
        }
        6 => {
            // clear codes (code 4 of 3 bits) and nothing else
            v.extend(image(8, 8, 0));
            v.push(2);
            for _ in 0..n / 84 {
                v.push(255);
                for _ in 0..85 {
                    v.extend([0b0010_0100, 0b1001_0010, 0b0100_1001][..].iter());
                }
            }
            v.push(0);
            "clear codes"
        }
        7 => {
            v.extend(image(8, 8, 0));
            v.push(2);
            repeat(&mut v, &[1, 0b0010_0100]);
            v.push(0);
            "image data of one-byte pieces"
        }
        8 => {
            v.extend(image(700, 700, 0));
            v.push(8);
            for _ in 0..n / 255 {
                v.push(255);
                v.extend([0; 255]);
            }
            "image data of zeros"
        }
        9 => {
            // ends after one pixel, then a very long tail
            v.extend(image(1, 1, 0));
            v.extend([2, 2, 0b0100_0100, 1]);
            repeat(&mut v, &[1, 0xAA]);
            v.push(0);
            "tail of one-byte pieces"
        }
        10 => {
            // tables that nothing uses
            for _ in 0..n / 100 {
                v.extend(image(0, 0, 0x87));
                v.extend([7; 768]);
                v.extend([2, 0]);
            }
            "local tables"
        }
        _ => {
            for k in 0..n {
                match sim_mix(k) {
                    0 => v.extend([0x21, 0xFE, 1, 0, 0]),
                    1 => v.extend([0x21, 0xF9, 4, 0, 1, 0, 0, 0]),
                    2 => v.extend([0x21, 1, 2, 9, 9, 0]),
                    _ => {
                        v.extend(image(1, 1, 0));
                        v.extend([2, 2, 0b0100_0100, 1, 0]);
                    }
                }
            }
            "mixed small blocks"
        }
    };
    let mut frames = match what {
        0 | 1 | 3 => Some(0),
        2 if !cfg.end_code => Some(n as u64),
        4 if cfg.unknown => Some(0),
        10 if !cfg.end_code => Some(n as u64 / 100),
        11 => Some((0..n).filter(|&k| sim_mix(k) == 3).count() as u64),
        _ => None,
    };
    if sim.w(3) > 0 {
        v.push(0x3B);
    } else {
        frames = None;
    }
    (v, name, frames)
}

fn sim_mix(k: usize) -> usize {
    (k.wrapping_mul(0x9E37_79B9) >> 13) % 4
}

fn c06_bomb(sim: &Sim) -> Check {
    let limit = [65_536u64, 1 << 20][sim.c(2) as usize];
    let cfg = Cfg { rgba: sim.c(2) == 1, skip: sim.c(4) == 3, consistency: false, end_code: sim.c(3) == 2, unknown: sim.c(4) > 0, limit: Some(limit) };
    let (bytes, name, expected) = bomb(sim, &cfg);
    sim.note(|| format!("bomb: {name}, {} bytes", bytes.len()));
    sim.ev("bomb", bytes.len() as u64, hash_bytes(&bytes));
    sim.probe("hostile: very long repetition");
    sim.nontrivial();
    let len = bytes.len();
    let live = crate::alloc::reset_peak();
    let delivery = [Delivery::Whole, Delivery::Fixed(8192), Delivery::Fixed(1000), Delivery::Fixed(7), Delivery::Fixed(1)][sim.s(5) as usize];
    let bytes = Arc::new(bytes);
    let style = sim.c(4);
    if style == 3 {
        let mut d = StreamingDecoder::new();
        let mut rest = &bytes[..];
        let max = [1usize, 3, 100, 1 << 24][sim.s(4) as usize];
        let mut calls = 0u64;
        let mut vec = Vec::new();
        let mut out = [0u8; 64];
        while !rest.is_empty() {
            calls += 1;
            ensure!(calls < len as u64 * 8 + 1000, "no-progress", "{calls} calls for {len} bytes");
            let n = max.min(rest.len());
            let r = match sim.c(3) {
                0 => d.update(&rest[..n], &mut OutputBuffer::Slice(&mut out)),
                1 => {
                    vec.clear();
                    d.update(&rest[..n], &mut OutputBuffer::Vec(&mut vec))
                }
                _ => d.update(&rest[..n], &mut OutputBuffer::None),
            };
            match r {
                Ok((c, _)) => rest = &rest[c..],
                Err(_) => break,
            }
        }
        return Ok(());
    }
    let r = SimReader::new(sim, bytes.clone(), Arc::new(Vec::new()), delivery);
    let view = r.view();
    let Ok(mut dec) = cfg.open(r) else {
        return Ok(());
    };
    let mut frames = 0u64;
    let mut orderly;
    match style {
        0 => loop {
            match dec.read_next_frame() {
                Ok(Some(_)) => frames += 1,
                r => {
                    orderly = r.is_ok();
                    break;
                }
            }
            ensure!(frames <= len as u64, "endless", "more frames than bytes");
        },
        1 => loop {
            match dec.next_frame_info() {
                Ok(Some(_)) => frames += 1,
                r => {
                    orderly = r.is_ok();
                    break;
                }
            }
            ensure!(frames <= len as u64, "endless", "more frames than bytes");
        },
        _ => {
            orderly = true;
            for f in dec.into_iter() {
                orderly = f.is_ok();
                if !orderly {
                    break;
                }
                frames += 1;
                ensure!(frames <= len as u64, "endless", "more frames than bytes");
            }
        }
    }
    if let Some(n) = expected {
        ensure!(orderly && frames == n, "long-stream-refused", "{name}: {frames} of {n} frames, orderly end: {orderly}");
    }
    sim.ev("bomb-frames", frames, view.reads.load(SeqCst) as u64);
    ensure!(view.reads.load(SeqCst) <= 4 * len + 40, "work", "{} reads on an input of {len} bytes", view.reads.load(SeqCst));
    let grown = crate::alloc::peak() - live;
    // the input itself is the harness's
    let max = 8 * limit as i64 + (1 << 20);
    ensure!(grown <= max, "memory", "peak heap grew by {grown} bytes with a limit of {limit} on {len} bytes of {name}");
    let churn = crate::alloc::churn();
    sim.ev("bomb-churn", churn / (16 << 10), 0);
    // each frame takes a new LZW decoder and a buffer within the limit
    let max = 64 * len as u64 + (frames + 2) * (256 << 10) + (frames + 1) * 4 * limit.min(4 << 20) + (1 << 20);
    ensure!(churn <= max, "copying", "{churn} bytes were requested in total on {len} bytes of {name} with {frames} frames");
    Ok(())
}

fn c06(sim: &Sim) -> Check {
    if sim.chance(Lane::Work, 1, 4000) {
        return c06_bomb(sim);
    }
    let (bytes, m, b) = hostile(sim);
    sim.note(|| gifgen::describe(&m));
    sim.ev("stream", bytes.len() as u64, hash_bytes(&bytes));
    let limit = [4096u64, 65_536, 1 << 20, 300, 20][sim.c(5) as usize];
    let cfg = Cfg {
        rgba: sim.c(2) == 1,
        skip: sim.c(4) == 3,
        consistency: sim.c(4) == 3,
        end_code: sim.c(3) == 2,
        unknown: sim.c(2) == 1,
        limit: Some(limit),
    };
    let live = crate::alloc::reset_peak();
    let which = sim.c(4);
    match which {
        0 | 1 => hostile_pull(sim, &bytes, &b, &cfg)?,
        2 => hostile_push(sim, &bytes)?,
        _ => hostile_frame(sim, &b, &cfg)?,
    }
    let grown = crate::alloc::peak() - live;
    // buffers of the harness itself stay below 200 KiB
    let max = 8 * limit as i64 + bytes.len().max(b.bytes.len()) as i64 * 12 + (600 << 10);
    ensure!(which == 2 || grown <= max, "memory", "peak heap grew by {grown} bytes with a limit of {limit} and an input of {} bytes", bytes.len());
    Ok(())
}

fn hostile_pull(sim: &Sim, bytes: &[u8], b: &Built, cfg: &Cfg) -> Check {
    let len = bytes.len();
    let nf = sim.f(4);
    let faults = (0..nf)
        .map(|_| ReadFault {
            at: sim.f(len as u64 + 1) as usize,
            kind: FaultKind::pick(sim),
            times: 1 + sim.f(3) as u32,
        })
        .collect();
    let mut r = SimReader::new(sim, Arc::new(bytes.to_vec()), b.bounds.clone(), Delivery::pick(sim)).faults(faults);
    if sim.chance(Lane::Fault, 1, 3) {
        r = r.eintr(1, 5);
    }
    let view = r.view();
    let Ok(mut dec) = cfg.open(r) else {
        sim.probe("hostile: refused on opening");
        return Ok(());
    };
    let bpp = if cfg.rgba { 4 } else { 1 };
    let calls = 1 + sim.c(24);
    let mut errors = 0u64;
    for k in 0..calls {
        let op = sim.c(9);
        sim.ev("call", op, k);
        let before = view.reads.load(SeqCst);
        match op {
            0 | 1 => match dec.read_next_frame() {
                Ok(Some(f)) => {
                    if cfg.skip {
                        ensure!(f.buffer.len() as u64 <= cfg.limit.unwrap_or(0) + 256, "limit", "{} bytes of compressed data", f.buffer.len());
                    } else {
                        ensure!(f.buffer.len() == f.width as usize * f.height as usize * bpp, "frame-size", "frame of {}x{} with {} bytes", f.width, f.height, f.buffer.len());
                        ensure!(f.buffer.len() as u64 <= cfg.limit.unwrap_or(0), "limit", "frame of {} bytes", f.buffer.len());
                    }
                    sim.probe("hostile: frame delivered");
                }
                Ok(None) => sim.probe("hostile: orderly end"),
                Err(_) => {
                    errors += 1;
                    sim.probe("hostile: error");
                }
            },
            2 | 3 => {
                if dec.next_frame_info().is_err() {
                    errors += 1;
                    sim.probe("hostile: error");
                }
            }
            4 | 5 => {
                let need = dec.buffer_size();
                let len = match sim.c(5) {
                    0 => need,
                    1 => need.saturating_sub(1 + sim.c(9) as usize),
                    2 => sim.c(50) as usize,
                    3 => need + sim.c(20) as usize,
                    _ => 0,
                };
                if len < 600_000 {
                    let mut buf = crate::alloc::exempt(|| vec![0; len]);
                    let r = dec.read_into_buffer(&mut buf);
                    crate::alloc::exempt(|| drop(buf));
                    if len < need {
                        sim.probe("hostile: buffer too small");
                        ensure!(r.is_err(), "small-buffer", "a buffer of {len} bytes was accepted for {need} bytes of pixels");
                    }
                    errors += u64::from(r.is_err());
                }
            }
            6 => {
                let len = [0, 1, 2, 3, 4, 5, 8, 61, 200][sim.c(9) as usize];
                let mut buf = vec![0; len];
                let r = dec.fill_buffer(&mut buf);
                if cfg.rgba && len % 4 != 0 {
                    ensure!(!matches!(r, Ok(true)), "odd-buffer", "a buffer of {len} bytes was filled with RGBA pixels");
                }
                errors += u64::from(r.is_err());
            }
            7 => {
                let _ = (dec.palette().map(<[u8]>::len).is_ok(), dec.buffer_size(), dec.line_length());
            }
            _ => {
                let _ = (dec.width(), dec.height(), dec.bg_color(), dec.repeat(), dec.global_palette().map(<[u8]>::len));
            }
        }
        let reads = view.reads.load(SeqCst) - before;
        ensure!(reads <= 4 * len + 40, "work", "one call made {reads} reads on an input of {len} bytes");
    }
    if errors > 0 {
        sim.probe("hostile: went on after an error");
    }
    if calls >= 3 {
        sim.nontrivial();
    }
    Ok(())
}

fn hostile_push(sim: &Sim, bytes: &[u8]) -> Check {
    let mut d = StreamingDecoder::new();
    let mut rest = bytes;
    let mut vec = Vec::new();
    let mut zero = 0u64;
    let mut errors = 0;
    let max = [1, 4, 20, 300, 100_000][sim.s(5) as usize];
    let mut out = vec![0u8; 300];
    let mut calls = 0u64;
    while !rest.is_empty() {
        calls += 1;
        let n = (1 + sim.s(max) as usize).min(rest.len());
        let k = 1 + sim.c(300) as usize;
        let (r, vec_before) = match sim.c(5) {
            0 | 1 => (d.update(&rest[..n], &mut OutputBuffer::Slice(&mut out[..k])), None),
            2 => (d.update(&rest[..n], &mut OutputBuffer::Slice(&mut [])), None),
            3 => (d.update(&rest[..n], &mut OutputBuffer::Vec(&mut vec)), Some(())),
            _ => (d.update(&rest[..n], &mut OutputBuffer::None), None),
        };
        let _ = vec_before;
        match r {
            Ok((c, ev)) => {
                ensure!(c <= n, "over-consumed", "{c} of {n} bytes consumed");
                sim.ev("push", c as u64, 0);
                if let Decoded::FrameMetadata(_) = ev {
                    let f = d.current_frame();
                    let _ = (f.width, f.height);
                    if sim.c(2) == 1 {
                        d.current_frame_mut().delay = 7;
                    }
                }
                if let Decoded::SubBlockFinished(_) | Decoded::BlockFinished(_) = ev {
                    let (_, data, _) = d.last_ext();
                    let _ = data.len();
                }
                zero = if c == 0 && !matches!(ev, Decoded::BytesDecoded(_)) { zero + 1 } else { 0 };
                ensure!(zero < 8, "no-progress", "{zero} calls in a row consumed nothing");
                rest = &rest[c..];
            }
            Err(_) => {
                errors += 1;
                sim.ev("push-err", errors, 0);
                sim.probe("hostile: error");
                // go on with or without the offending bytes
                let drop = sim.c(3) as usize;
                rest = &rest[drop.min(rest.len())..];
                if errors > 12 {
                    break;
                }
            }
        }
        ensure!(calls < 400_000 + bytes.len() as u64 * 8, "no-progress", "{calls} calls for {} bytes", bytes.len());
    }
    let _ = (d.width(), d.height(), d.version());
    if calls >= 3 {
        sim.nontrivial();
    }
    Ok(())
}

fn hostile_frame(sim: &Sim, b: &Built, cfg: &Cfg) -> Check {
    let mut fd = FrameDecoder::new(cfg.options());
    if sim.c(3) > 0 {
        let n = sim.c(300) as usize;
        fd.set_global_palette((0..n).map(|i| i as u8).collect());
    }
    let calls = 1 + sim.c(12);
    let bpp = if cfg.rgba { 4 } else { 1 };
    for k in 0..calls {
        // compressed data of a true frame, mutated, or noise
        let mut data: Vec<u8> = match (b.frames.is_empty(), sim.w(3)) {
            (false, 0 | 1) => {
                let f = &b.frames[sim.w(b.frames.len() as u64) as usize];
                let mut v = vec![f.mcs];
                v.extend_from_slice(&f.lzw);
                v
            }
            _ => {
                let mut r = Rng::new(sim.w(1 << 16));
                let n = sim.w(40);
                (0..n).map(|i| if i == 0 { r.below(14) as u8 } else { r.next() as u8 }).collect()
            }
        };
        if sim.w(2) == 1 {
            let n = sim.w(4);
            mutate(sim, &mut data, &[], n);
        }
        let (w, h) = match sim.w(4) {
            0 => (sim.w(30) as u16, sim.w(30) as u16),
            1 => b.frames.first().map_or((3, 3), |f| (f.w, f.h)),
            2 => (65535, sim.w(4) as u16),
            _ => (sim.w(3) as u16, 65535),
        };
        let mut f = Frame { width: w, height: h, interlaced: sim.w(2) == 1, buffer: Cow::Owned(data), ..Frame::default() };
        if sim.w(3) == 2 {
            f.palette = Some((0..sim.w(80)).map(|v| v as u8).collect());
        }
        if sim.w(2) == 1 {
            f.transparent = Some(sim.w(256) as u8);
        }
        let need = w as usize * h as usize * bpp;
        ensure!(fd.buffer_size(&f) == need, "buffer-size", "{} for {w}x{h}", fd.buffer_size(&f));
        if sim.c(2) == 0 {
            let r = fd.decode_lzw_encoded_frame(&mut f);
            if r.is_ok() {
                ensure!(f.buffer.len() == need, "frame-size", "{} bytes for {need}", f.buffer.len());
                ensure!(need as u64 <= cfg.limit.unwrap_or(0), "limit", "frame of {need} bytes with a limit of {:?}", cfg.limit);
                sim.probe("hostile: frame delivered");
            }
            sim.ev("frame-decoder", k, u64::from(r.is_ok()));
        } else {
            let len = match sim.c(3) {
                0 => need,
                1 => need.saturating_sub(1 + sim.c(5) as usize),
                _ => sim.c(100) as usize,
            };
            if len < 300_000 {
                let mut buf = crate::alloc::exempt(|| vec![0; len]);
                let r = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf);
                crate::alloc::exempt(|| drop(buf));
                ensure!(len >= need || r.is_err(), "small-buffer", "a buffer of {len} bytes was accepted for {need}");
                sim.ev("frame-decoder", k, u64::from(r.is_ok()));
            }
        }
    }
    if calls >= 3 {
        sim.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

pub static C07: Prop = Prop {
    id: "C07",
    run: c07,
    quick_runs: 600_000,
    level: "exploration",
    rule: "streams with frames and extensions whose sizes straddle a drawn memory limit, including enormous claimed sizes and long runs of frames, decoded under a drawn delivery; heap high-water mark taken from the global allocator; non-trivial = something was refused because of the limit, or allowed with at most 2 bytes to spare",
    stubs: "input reader (simulated), allocator (real memory, instrumented), consumer (simulated)",
    assumptions: &["heap bound: 4 times the limit plus 256 KiB for tables and fixed buffers", "after a refusal in compressed-data mode or inside an extension nothing is claimed about the frames that follow"],
};

const HEAP_SLACK: i64 = 256 << 10;

fn c07(sim: &Sim) -> Check {
    if sim.chance(Lane::Work, 1, 2500) {
        return c07_big(sim);
    }
    match sim.weighted(Lane::Work, &[6, 3, 3, 3, 2]) {
        0 => c07_pixels(sim),
        1 => c07_skip(sim),
        2 => c07_ext(sim),
        3 => c07_frame_decoder(sim),
        _ => c07_many(sim),
    }
}

fn heap_check(live: i64, limit: u64, what: &str) -> Check {
    let grown = crate::alloc::peak() - live;
    ensure!(grown <= 4 * limit as i64 + HEAP_SLACK, "heap", "{what}: peak heap grew by {grown} bytes with a limit of {limit}");
    Ok(())
}

fn c07_pixels(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.scale = 0;
    o.exts = false;
    o.max_frames = 5;
    let mut m = gen_model(sim, &o);
    // some frames claim far more than their data holds
    let mut huge = Vec::new();
    let mut idx = 0;
    for it in &mut m.items {
        if let Item::Image(im) = it {
            if sim.chance(Lane::Work, 1, 6) {
                let (w, h) = [(65535, 65535), (65535, 100), (2000, 2000), (65535, 1000), (32768, 32768), (49152, 65535), (16384, 65535), (46341, 46341)][sim.w(8) as usize];
                // its data stays that of a small frame
                im.interlaced = false;
                huge.push((idx, w, h));
            }
            idx += 1;
        }
    }
    let b = m.build();
    let mut bytes = (*b.bytes).clone();
    for &(k, w, h) in &huge {
        let p = b.frames[k].start + 5;
        let (w, h): (u16, u16) = (w as u16, h as u16);
        bytes[p..p + 2].copy_from_slice(&w.to_le_bytes());
        bytes[p + 2..p + 4].copy_from_slice(&h.to_le_bytes());
        sim.probe("limit: enormous claimed size");
    }
    sim.note(|| format!("{} huge={huge:?}", gifgen::describe(&m)));
    sim.ev("stream", bytes.len() as u64, hash_bytes(&bytes));
    let rgba = sim.c(2) == 1;
    let bpp = if rgba { 4 } else { 1 };
    let size = |k: usize| -> u64 {
        let (w, h) = huge.iter().find(|x| x.0 == k).map_or((u64::from(b.frames[k].w), u64::from(b.frames[k].h)), |x| (x.1, x.2));
        w * h * bpp
    };
    let pick = sim.c(b.frames.len() as u64) as usize;
    let limit = match sim.c(4) {
        0 => size(pick),
        1 => size(pick).saturating_sub(1),
        2 => size(pick) + 1,
        _ => 16 + sim.c(400),
    }
    .clamp(16, 2_000_000);
    let cfg = Cfg { consistency: false, ..harmless(sim, &m, &b, Cfg { rgba, limit: Some(limit), ..Cfg::default() }) };
    let live = crate::alloc::reset_peak();
    let r = SimReader::new(sim, Arc::new(bytes), b.bounds.clone(), Delivery::pick(sim));
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => return violation("refused", format!("{:?}", End::of(&e))),
    };
    let mut taken = 0i64;
    for (k, e) in b.frames.iter().enumerate() {
        let s = size(k);
        let is_huge = huge.iter().any(|x| x.0 == k);
        match dec.read_next_frame() {
            Ok(Some(f)) => {
                ensure!(s <= limit, "not-refused", "frame {k} needs {s} bytes and was decoded with a limit of {limit}");
                let rec = FrameRec::of(f);
                taken += rec.buffer.len() as i64 * 2;
                ensure!(!is_huge, "invented", "frame {k} delivered without having its data");
                check_frame(k, &rec, e, &m, rgba)?;
                sim.ev("frame", k as u64, hash_bytes(&rec.buffer));
                if limit - s <= 2 {
                    sim.nontrivial();
                    sim.probe("limit: exactly enough");
                }
            }
            Ok(None) => return violation("frame-missing", format!("the end is reported before frame {k} of {}", b.frames.len())),
            Err(err) => {
                let end = End::of(&err);
                sim.ev("refused", k as u64, 0);
                if is_huge && s <= limit {
                    // not enough data for what it claims
                    continue;
                }
                ensure!(s > limit, "wrongly-refused", "frame {k} needs {s} bytes, the limit is {limit}: {end:?}");
                ensure!(!end.is_eof(), "wrong-error", "frame {k} beyond the limit: {end:?}");
                sim.nontrivial();
                sim.probe("limit: refused");
            }
        }
    }
    match dec.read_next_frame() {
        Ok(None) => {}
        r => return violation("bad-end", format!("{:?}", r.map(|f| f.is_some()).map_err(|e| End::of(&e)))),
    }
    heap_check(live + taken, limit, "pixels")
}

fn c07_skip(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.scale = 0;
    o.exts = false;
    o.max_frames = 4;
    let m = gen_model(sim, &o);
    let b = m.build();
    sim.note(|| gifgen::describe(&m));
    let mut bytes = (*b.bytes).clone();
    // claimed size has nothing to do with what is kept in this mode
    for f in &b.frames {
        if sim.chance(Lane::Work, 1, 4) {
            bytes[f.start + 5..f.start + 9].copy_from_slice(&[0xFF; 4]);
            sim.probe("limit: enormous claimed size");
        }
    }
    sim.ev("stream", bytes.len() as u64, hash_bytes(&bytes));
    let size = |k: usize| b.frames[k].lzw.len() as u64 + 1;
    let pick = sim.c(b.frames.len() as u64) as usize;
    let limit = match sim.c(4) {
        0 => size(pick),
        1 => size(pick) - 1,
        2 => size(pick) + 1,
        _ => 16 + sim.c(400),
    }
    .max(16);
    let cfg = Cfg { consistency: false, ..harmless(sim, &m, &b, Cfg { skip: true, limit: Some(limit), ..Cfg::default() }) };
    let live = crate::alloc::reset_peak();
    let r = SimReader::new(sim, Arc::new(bytes), b.bounds.clone(), Delivery::pick(sim));
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => return violation("refused", format!("{:?}", End::of(&e))),
    };
    let meta_only = sim.c(4) == 3;
    let mut taken = 0;
    for (k, e) in b.frames.iter().enumerate() {
        let s = size(k);
        if meta_only {
            match dec.next_frame_info() {
                Ok(Some(f)) => ensure!(f.buffer.is_empty(), "info", "frame info carries data"),
                r => return violation("metadata-refused", format!("frame {k}: {:?}", r.map(|_| ()).map_err(|e| End::of(&e)))),
            }
            continue;
        }
        match dec.read_next_frame() {
            Ok(Some(f)) => {
                // one byte either way depends on whether the code size counts
                ensure!(s <= limit + 1, "not-refused", "frame {k} has {s} bytes of compressed data, kept with a limit of {limit}");
                ensure!(f.buffer[1..] == e.lzw[..], "compressed-data", "frame {k}: {} bytes, expected {}", f.buffer.len() - 1, e.lzw.len());
                taken = taken.max(f.buffer.len() as i64);
                sim.ev("frame", k as u64, s);
                if limit <= s + 2 {
                    sim.nontrivial();
                    sim.probe("limit: exactly enough");
                }
            }
            Ok(None) => return violation("frame-missing", format!("the end is reported before frame {k}")),
            Err(err) => {
                let end = End::of(&err);
                ensure!(s > limit, "wrongly-refused", "frame {k} has {s} bytes of compressed data, the limit is {limit}: {end:?}");
                sim.ev("refused", k as u64, s);
                sim.nontrivial();
                sim.probe("limit: refused");
                break;
            }
        }
    }
    let _ = taken;
    heap_check(live, limit, "compressed data")
}

fn c07_ext(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.scale = 0;
    o.max_frames = 2;
    o.exts = false;
    o.big = false;
    let mut m = gen_model(sim, &o);
    let limit = [64, 300, 1000, 5000, 20_000][sim.w(5) as usize];
    // an extension of about the limit, or far beyond it
    let total = match sim.w(5) {
        0 => limit - 1 - sim.w(6),
        1 => limit + sim.w(6),
        2 => limit + 7 + sim.w(300),
        3 => limit * (2 + sim.w(8)),
        _ => limit.saturating_sub(10 + sim.w(200)).max(1),
    };
    let max = [255, 255, 100, 7][sim.w(4) as usize];
    let mut blocks = Vec::new();
    let mut left = total;
    while left > 0 {
        let n = left.min(max);
        blocks.push(vec![0x41; n as usize]);
        left -= n;
    }
    let at = sim.w(m.items.len() as u64 + 1) as usize;
    // not between a control block and its image (legal, but the simplest case is enough here)
    let at = (at..m.items.len()).find(|&i| !(i > 0 && matches!(m.items[i - 1], Item::Gce(_)))).unwrap_or(m.items.len());
    m.items.insert(at, Item::Ext { label: [0xFE, 0xFF, 0x01][sim.w(3) as usize], blocks });
    let b = m.build();
    let biggest = b.frames.iter().map(|f| f.pixels.len() as u64).max().unwrap_or(0);
    if biggest > limit {
        return Ok(());
    }
    sim.note(|| gifgen::describe(&m));
    sim.ev("stream", b.bytes.len() as u64, total);
    let cfg = Cfg { limit: Some(limit), ..Cfg::default() };
    let before = b.frames.iter().filter(|f| f.end <= b.exts.iter().find(|e| e.blocks.concat().len() as u64 == total && e.label != 0xF9).map_or(0, |e| e.start)).count();
    let live = crate::alloc::reset_peak();
    let out = drain(sim, &cfg, reader(sim, &b, false), Drain::ReadNextFrame);
    let held: i64 = out.frames.iter().map(|f| f.buffer.len() as i64 + 256).sum();
    heap_check(live + held, limit, "extension data")?;
    for (i, f) in out.frames.iter().enumerate() {
        check_frame(i, f, &b.frames[i], &m, false)?;
    }
    if total > limit + 4 {
        sim.nontrivial();
        sim.probe("limit: refused");
        ensure!(matches!(out.end, End::Format(_) | End::Io(io::ErrorKind::OutOfMemory, _)), "not-refused", "an extension of {total} bytes with a limit of {limit}: {:?}", out.end);
        ensure!(out.frames.len() == before, "frame-lost", "{} frames before the refused extension, {before} expected", out.frames.len());
    } else if total + 4 < limit {
        ensure!(out.end == End::Done && out.frames.len() == b.frames.len(), "wrongly-refused", "an extension of {total} bytes with a limit of {limit}: {:?}", out.end);
        if total + 20 > limit {
            sim.nontrivial();
        }
    }
    Ok(())
}

fn c07_frame_decoder(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.scale = 0;
    o.exts = false;
    let m = gen_model(sim, &o);
    let b = m.build();
    sim.note(|| gifgen::describe(&m));
    let rgba = sim.c(2) == 1;
    let bpp = if rgba { 4 } else { 1 };
    let pick = &b.frames[sim.c(b.frames.len() as u64) as usize];
    let s0 = pick.pixels.len() as u64 * bpp;
    let limit = match sim.c(4) {
        0 => s0,
        1 => s0.saturating_sub(1),
        2 => s0 + 1,
        _ => 1 + sim.c(400),
    }
    .max(1);
    let cfg = Cfg { consistency: false, ..harmless(sim, &m, &b, Cfg { rgba, limit: Some(limit), ..Cfg::default() }) };
    let live = crate::alloc::reset_peak();
    let mut fd = FrameDecoder::new(cfg.options());
    fd.set_global_palette(m.global.clone().unwrap_or_default());
    let n = 1 + sim.c(5);
    for _ in 0..n {
        let e = &b.frames[sim.c(b.frames.len() as u64) as usize];
        let mut data = vec![e.mcs];
        data.extend_from_slice(&e.lzw);
        let mut f = Frame { width: e.w, height: e.h, interlaced: e.interlaced, palette: e.local.clone(), transparent: e.transparent(), buffer: Cow::Owned(data), ..Frame::default() };
        let claim = sim.chance(Lane::Work, 1, 6);
        if claim {
            f.width = 65535;
            f.height = 60000;
        }
        let s = u64::from(f.width) * u64::from(f.height) * bpp;
        let r = fd.decode_lzw_encoded_frame(&mut f);
        sim.ev("frame-decoder", s, u64::from(r.is_ok()));
        match r {
            Ok(()) => {
                ensure!(s <= limit, "not-refused", "the frame decoder produced {s} bytes with a limit of {limit}");
                let want = if rgba { e.rgba(&m) } else { e.pixels.clone() };
                ensure!(f.buffer[..] == want[..], "pixels", "{}x{} differs", e.w, e.h);
                if limit - s <= 2 {
                    sim.nontrivial();
                    sim.probe("limit: exactly enough");
                }
            }
            Err(err) => {
                ensure!(s > limit, "wrongly-refused", "{s} bytes with a limit of {limit}: {:?}", End::of(&err));
                sim.nontrivial();
                sim.probe("limit: refused");
            }
        }
    }
    heap_check(live + b.bytes.len() as i64 * 3, limit.max(b.frames.iter().map(|f| f.pixels.len() as u64 * 4).max().unwrap_or(0)), "frame decoder")
}

/// Frames beyond the default limit, with their data: allowed without a limit or with a larger one.
fn c07_big(sim: &Sim) -> Check {
    let (w, h) = [(10000u16, 5001u16), (8191, 8193), (65535, 1000), (4000, 16000)][sim.w(4) as usize];
    let (rgba, short) = ([false, true][sim.w(2) as usize], sim.w(4) == 3);
    // an RGBA frame of that many bytes has a quarter of the height
    let h = if rgba { h / 4 + 1 } else { h };
    let pixels = usize::from(w) * usize::from(h);
    let bytes = pixels as u64 * if rgba { 4 } else { 1 };
    let limit = match sim.c(5) {
        0 | 1 => UNLIMITED,
        2 => bytes,
        3 => bytes + 1,
        _ => bytes - 1,
    };
    // a picture of one colour, cut by a few rows of another
    let mut px = vec![1u8; pixels];
    for _ in 0..sim.w(4) {
        let at = sim.w(pixels as u64) as usize;
        let n = usize::from(w).min(pixels - at);
        px[at..at + n].fill(sim.w(4) as u8);
    }
    let data = crate::lzw::encode(&px[..pixels - usize::from(short)], &crate::lzw::LzwStyle { clear_on_full: sim.w(2) == 1, ..crate::lzw::LzwStyle::plain(2) }).data;
    let mut s = b"GIF89a\x10\0\x10\0\x81\0\0".to_vec();
    let palette = [0u8, 1, 2, 10, 20, 30, 200, 201, 202, 90, 91, 92];
    s.extend_from_slice(&palette);
    s.push(0x2C);
    for v in [0, 0, w, h] {
        s.extend_from_slice(&v.to_le_bytes());
    }
    s.push(0);
    s.push(2);
    for c in data.chunks(255) {
        s.push(c.len() as u8);
        s.extend_from_slice(c);
    }
    s.extend_from_slice(&[0, 0x3B]);
    sim.note(|| format!("{w}x{h} rgba={rgba} short={short} limit={limit}"));
    sim.ev("stream", s.len() as u64, hash_bytes(&s));
    sim.probe("limit: frame of more than 50 MB");
    sim.nontrivial();
    let cfg = Cfg { rgba, limit: Some(limit), ..Cfg::default() };
    let r = SimReader::new(sim, Arc::new(s), Arc::new(Vec::new()), Delivery::pick(sim));
    let live = crate::alloc::reset_peak();
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => return violation("refused", format!("{:?}", End::of(&e))),
    };
    match dec.read_next_frame() {
        Ok(Some(f)) => {
            ensure!(bytes <= limit, "not-refused", "a frame of {bytes} bytes was decoded with a limit of {limit}");
            ensure!(!short, "invented", "a frame that lacks a pixel was delivered");
            ensure!(f.buffer.len() as u64 == bytes, "pixels", "{} bytes for {bytes}", f.buffer.len());
            let ok = if rgba {
                f.buffer.chunks_exact(4).zip(&px).all(|(c, &i)| c[..3] == palette[usize::from(i) * 3..][..3] && c[3] == 255)
            } else {
                f.buffer[..] == px[..]
            };
            ensure!(ok, "pixels", "the pixels of a {w}x{h} frame differ");
        }
        Ok(None) => return violation("frame-missing", "the end is reported before the only frame"),
        Err(e) => {
            let end = End::of(&e);
            ensure!(short || bytes > limit, "wrongly-refused", "{bytes} bytes with a limit of {limit}: {end:?}");
            if bytes > limit {
                let grown = crate::alloc::peak() - live;
                ensure!(grown < bytes as i64 / 2, "heap", "{grown} bytes taken before a frame of {bytes} bytes was refused");
                sim.probe("limit: refused");
            }
            return Ok(());
        }
    }
    match dec.read_next_frame() {
        Ok(None) => Ok(()),
        r => violation("bad-end", format!("{:?}", r.map(|f| f.is_some()).map_err(|e| End::of(&e)))),
    }
}

/// Memory does not grow with the number of frames.
fn c07_many(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.scale = 0;
    o.dim = 30;
    o.exts = false;
    o.big = false;
    o.zero_size = false;
    o.max_frames = 2;
    let mut m = gen_model(sim, &o);
    let n = if sim.w(4) == 3 { 600 } else { 30 + sim.w(60) as usize };
    let images: Vec<Item> = m.items.clone();
    while m.items.len() < n {
        m.items.extend(images.iter().cloned());
    }
    // many comments as well
    if sim.w(2) == 1 {
        let mut with = Vec::new();
        for (i, it) in m.items.drain(..).enumerate() {
            if !matches!(with.last(), Some(Item::Gce(_))) {
                with.push(Item::Ext { label: 0xFE, blocks: vec![vec![i as u8; 200]; 4] });
            }
            with.push(it);
        }
        m.items = with;
    }
    let b = m.build();
    sim.ev("stream", b.bytes.len() as u64, b.frames.len() as u64);
    let rgba = sim.c(2) == 1;
    let big = b.frames.iter().map(|f| f.pixels.len()).max().unwrap_or(1) as u64 * if rgba { 4 } else { 1 };
    let cfg = Cfg { consistency: false, ..harmless(sim, &m, &b, Cfg { rgba, skip: sim.c(4) == 3, ..Cfg::default() }) };
    let big = if cfg.skip { b.frames.iter().map(|f| f.lzw.len() as u64 + 2).max().unwrap_or(1) } else { big };
    let limit = big.max(1000);
    let cfg = Cfg { limit: Some(limit), ..cfg };
    let how = sim.c(3);
    let live = crate::alloc::reset_peak();
    let mut count = 0;
    let r = reader(sim, &b, false);
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => return violation("refused", format!("{:?}", End::of(&e))),
    };
    if how == 2 {
        for f in dec {
            match f {
                Ok(_) => count += 1,
                Err(e) => return violation("error", format!("frame {count}: {:?}", End::of(&e))),
            }
        }
    } else {
        loop {
            let r = if how == 0 { dec.read_next_frame() } else { dec.next_frame_info() };
            match r {
                Ok(Some(_)) => count += 1,
                Ok(None) => break,
                Err(e) => return violation("error", format!("frame {count}: {:?}", End::of(&e))),
            }
        }
    }
    ensure!(count == b.frames.len(), "frame-missing", "{count} of {} frames", b.frames.len());
    let grown = crate::alloc::peak() - live;
    sim.nontrivial();
    sim.probe("limit: long run of frames");
    ensure!(grown <= 2 * limit as i64 + (160 << 10), "heap", "peak heap grew by {grown} bytes over {count} frames of at most {big} bytes (input of {} bytes)", b.bytes.len());
    Ok(())
}

// ------------------------------------------------------------------ C08

pub static C08: Prop = Prop {
    id: "C08",
    run: c08,
    quick_runs: 450_000,
    level: "exploration",
    rule: "well-formed stream, usually with bytes after it; either the reader is recovered at a drawn moment and what is left compared with the input, or the reader stalls for good right after a drawn structure and everything before must still be delivered; non-trivial = recovered after at least one frame, or stalled after opening",
    stubs: READER_STUB,
    assumptions: &["the decoder may need two bytes beyond the header, or the first length byte of a frame's data, to report stream or frame information"],
};

fn c08(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.min_frames = 0;
    o.max_frames = 4;
    o.unknown_blocks = sim.w(4) == 3;
    let (m, b) = setup(sim, &o);
    let cfg = harmless(sim, &m, &b, Cfg { rgba: sim.c(2) == 1, skip: sim.c(4) == 3, ..Cfg::default() });
    if sim.c(2) == 0 {
        c08_recover(sim, &m, &b, &cfg)
    } else {
        c08_stall(sim, &m, &b, &cfg)
    }
}

fn c08_recover(sim: &Sim, m: &Model, b: &Built, cfg: &Cfg) -> Check {
    let mut r = reader(sim, b, true);
    let late = Arc::new(AtomicUsize::new(0));
    let l2 = late.clone();
    let trailer = b.trailer;
    r.on_read = Some(Box::new(move |pos| {
        if pos > trailer {
            l2.fetch_add(1, SeqCst);
        }
    }));
    let view = r.view();
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => return violation("refused", format!("{:?}", End::of(&e))),
    };
    // frames to take before recovering the reader; beyond the last one: the end is seen too
    let stop = sim.c(b.frames.len() as u64 + 2) as usize;
    let stop = if sim.c(2) == 0 { b.frames.len() + 1 } else { stop };
    let use_iter = sim.c(3) == 2;
    let mut info_only = false;
    let buf_reader = if use_iter {
        let mut it = dec.into_iter();
        for k in 0..stop {
            match it.next() {
                Some(Ok(f)) if k < b.frames.len() => check_delivered(k, &FrameRec::of(&f), &b.frames[k], m, cfg)?,
                None if k == b.frames.len() => {}
                x => return violation("sequence", format!("call {k}: {:?}", x.map(|r| r.map(|_| ()).map_err(|e| End::of(&e))))),
            }
        }
        if stop > b.frames.len() {
            let reads = view.reads.load(SeqCst);
            for _ in 0..sim.c(3) {
                ensure!(it.next().is_none(), "sequence", "something after the end");
            }
            ensure!(reads == view.reads.load(SeqCst), "read-after-end", "reads after the end of the image");
        }
        it.into_inner()
    } else {
        for k in 0..stop {
            info_only = k + 1 == stop && k < b.frames.len() && sim.c(4) == 3;
            if info_only {
                match dec.next_frame_info() {
                    Ok(Some(_)) => {}
                    x => return violation("sequence", format!("call {k}: {:?}", x.map(|r| r.map(|_| ())).map_err(|e| End::of(&e)))),
                }
                break;
            }
            match dec.read_next_frame() {
                Ok(Some(f)) if k < b.frames.len() => check_delivered(k, &FrameRec::of(f), &b.frames[k], m, cfg)?,
                Ok(None) if k == b.frames.len() => {}
                x => return violation("sequence", format!("call {k}: {:?}", x.map(|r| r.map(|_| ())).map_err(|e| End::of(&e)))),
            }
        }
        if stop > b.frames.len() {
            let reads = view.reads.load(SeqCst);
            for _ in 0..sim.c(3) {
                ensure!(matches!(dec.read_next_frame(), Ok(None)), "sequence", "something after the end");
            }
            ensure!(reads == view.reads.load(SeqCst), "read-after-end", "reads after the end of the image");
        }
        dec.into_inner()
    };
    ensure!(late.load(SeqCst) == 0, "over-read", "{} reads were issued although everything up to the trailer had been delivered", late.load(SeqCst));
    let mut rest = buf_reader.buffer().to_vec();
    rest.extend_from_slice(buf_reader.get_ref().undelivered());
    let total = b.bytes.len();
    ensure!(rest.len() <= total && rest[..] == b.bytes[total - rest.len()..], "rest", "what is left ({} bytes) is not a suffix of the input ({total} bytes)", rest.len());
    let p = total - rest.len();
    sim.ev("recovered", p as u64, stop as u64);
    if stop > b.frames.len() {
        ensure!(p == b.trailer + 1, "rest-after-end", "after the end of the image the reader is at {p}, the trailer is at {}", b.trailer);
        if !m.tail.is_empty() {
            sim.probe("bytes after the trailer recovered");
        }
    } else if stop == 0 {
        ensure!(p >= b.header_end && p <= b.first_nonext + 1, "rest-after-open", "after opening the reader is at {p}; header ends at {}, first image or trailer at {}", b.header_end, b.first_nonext);
    } else {
        let e = &b.frames[stop - 1];
        let hi = if info_only { e.mcs_off + 2 } else { e.end };
        ensure!(p >= e.mcs_off && p <= hi, "rest-after-frame", "after frame {} the reader is at {p}, its data lies at {}..{}", stop - 1, e.mcs_off, e.end);
    }
    if stop > 0 {
        sim.nontrivial();
    }
    Ok(())
}

fn c08_stall(sim: &Sim, m: &Model, b: &Built, cfg: &Cfg) -> Check {
    // what must come through before the stall
    let target = sim.c(2 * b.frames.len() as u64 + 2) as usize;
    // 0: end of image, 1..=n: frame, n+1: opening, n+2..: frame info
    let n = b.frames.len();
    let (at, what) = if target == 0 {
        (b.trailer + 1, "end")
    } else if target <= n {
        (b.frames[target - 1].end, "frame")
    } else if target == n + 1 {
        (b.first_nonext + 2, "open")
    } else {
        (b.frames[target - n - 2].mcs_off + 2, "info")
    };
    if at > b.bytes.len() {
        return Ok(());
    }
    sim.ev("stall", at as u64, target as u64);
    let kind = [FaultKind::WOULD_BLOCK, FaultKind::TIMED_OUT][sim.f(2) as usize];
    let mut r = SimReader::new(sim, b.bytes.clone(), b.bounds.clone(), Delivery::pick(sim)).faults(vec![ReadFault { at, kind, times: u32::MAX }]);
    if sim.chance(Lane::Fault, 1, 3) {
        r = r.eintr(1, 6);
    }
    // a reader that blocks would block for good there
    let view = r.view();
    let waited = |what: &str| match view.faults_fired.load(SeqCst) {
        0 => Ok(()),
        n => violation("waits", format!("{n} reads at {at} were issued, although all that was asked for ({what}) had been delivered")),
    };
    let mut dec = match cfg.open(r) {
        Ok(d) => d,
        Err(e) => return violation("stalled-open", format!("the reader stalls at {at} ({what}), opening needs {}: {:?}", b.first_nonext + 2, End::of(&e))),
    };
    check_info(&Info::of(&dec), m, b.repeat_before_first)?;
    sim.nontrivial();
    let (frames, info, end) = match what {
        "end" => (n, false, true),
        "frame" => (target, false, false),
        "open" => (0, false, false),
        _ => (target - n - 2, true, false),
    };
    // by iterator, or the frames in one of several ways each
    if !info && sim.c(4) == 3 {
        let mut it = dec.into_iter();
        for k in 0..frames {
            match it.next() {
                Some(Ok(f)) => check_delivered(k, &FrameRec::of(&f), &b.frames[k], m, cfg)?,
                x => return violation("stalled-frame", format!("the reader stalls at {at}; frame {k} is complete at {} but the iterator gives: {:?}", b.frames[k].end, x.map(|r| r.map(|_| ()).map_err(|e| End::of(&e))))),
            }
        }
        if end {
            for _ in 0..2 {
                ensure!(it.next().is_none(), "stalled-end", "the trailer was delivered, but the iterator goes on");
            }
        }
        sim.probe("stalled: iterator");
        return waited(what);
    }
    for k in 0..frames {
        if !cfg.skip && sim.c(3) == 2 {
            stalled_pieces(sim, &mut dec, k, b, m, cfg, at)?;
            continue;
        }
        match dec.read_next_frame() {
            Ok(Some(f)) => check_delivered(k, &FrameRec::of(f), &b.frames[k], m, cfg)?,
            x => return violation("stalled-frame", format!("the reader stalls at {at}; frame {k} is complete at {} but: {:?}", b.frames[k].end, x.map(|r| r.map(|_| ())).map_err(|e| End::of(&e)))),
        }
    }
    if info {
        match dec.next_frame_info() {
            Ok(Some(f)) => check_meta(frames, &FrameRec::of(f), &b.frames[frames])?,
            x => return violation("stalled-info", format!("the reader stalls at {at}; the header of frame {frames} is complete, but: {:?}", x.map(|r| r.map(|_| ())).map_err(|e| End::of(&e)))),
        }
    }
    if end {
        for _ in 0..2 {
            match dec.read_next_frame() {
                Ok(None) => {}
                x => return violation("stalled-end", format!("the trailer was delivered, but: {:?}", x.map(|r| r.map(|_| ())).map_err(|e| End::of(&e)))),
            }
        }
    }
    sim.probe(match what {
        "end" => "stalled after the trailer",
        "frame" => "stalled after a frame",
        "open" => "stalled after the header",
        _ => "stalled after a frame header",
    });
    waited(what)
}

/// Frame `k`, all of which has arrived, into a buffer or piece by piece and on to its end.
fn stalled_pieces(sim: &Sim, dec: &mut gif::Decoder<SimReader>, k: usize, b: &Built, m: &Model, cfg: &Cfg, at: usize) -> Check {
    let e = &b.frames[k];
    let wait = |what: &str, e: DecodingError| violation("stalled-frame", format!("the reader stalls at {at}; frame {k} is complete at {} but {what}: {:?}", b.frames[k].end, End::of(&e)));
    match dec.next_frame_info() {
        Ok(Some(f)) => check_meta(k, &FrameRec::of(f), e)?,
        Ok(None) => return violation("stalled-frame", format!("frame {k} is missing")),
        Err(e) => return wait("its information", e),
    }
    let bpp = if cfg.rgba { 4 } else { 1 };
    let want = if cfg.rgba { e.rgba(m) } else { e.pixels.clone() };
    let mut buf = vec![0xA5; want.len()];
    if sim.c(3) == 0 {
        if let Err(e) = dec.read_into_buffer(&mut buf) {
            return wait("read_into_buffer", e);
        }
        ensure!(buf == want, "pixels", "frame {k} differs");
        sim.probe("stalled: read into buffer");
    } else {
        let raw = if e.interlaced { interlace(&want, usize::from(e.w) * bpp, usize::from(e.h)) } else { want };
        let step = bpp * [1, 3, 7, 64, 1000, 1 << 20][sim.c(6) as usize];
        for piece in buf.chunks_mut(step) {
            match dec.fill_buffer(piece) {
                Ok(true) => {}
                Ok(false) => return violation("pixels", format!("frame {k} ends early")),
                Err(e) => return wait("fill_buffer", e),
            }
        }
        ensure!(buf == raw, "pixels", "frame {k} differs");
        if sim.c(2) == 1 {
            // asking beyond the last pixel tells that there is nothing more (or gives superfluous pixels)
            match dec.fill_buffer(&mut [0; 64][..bpp * (1 + sim.c(9) as usize)]) {
                Ok(_) => {}
                Err(e) => return wait("fill_buffer at its end", e),
            }
        }
        sim.probe("stalled: pieces");
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

pub static C21: Prop = Prop {
    id: "C21",
    run: c21,
    quick_runs: 600_000,
    level: "exploration",
    rule: "well-formed stream opened in pixel mode, or opened and read to its end in compressed-data mode, with one drawn allocation of the code under test failing (counted from the first read on); non-trivial = the failure fired",
    stubs: "input reader (simulated), allocator (real memory, failures injected), consumer (simulated)",
    assumptions: &["allocations made before the first byte is read (fixed buffers of the decoder) are outside the property", "pixel decoding uses infallible allocation by design and is outside the property", "nothing is claimed about going on after the error"],
};

fn c21(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.ext_size = 120;
    o.ext_blocks = 8;
    o.max_frames = 4;
    let (m, b) = setup(sim, &o);
    let skip = sim.c(3) > 0;
    let cfg = Cfg { consistency: false, ..harmless(sim, &m, &b, Cfg { skip, ..Cfg::default() }) };
    let nth = match sim.f(3) {
        0 => sim.f(4),
        1 => sim.f(12),
        _ => sim.f(40),
    };
    let mut r = reader(sim, &b, false);
    let mut armed = false;
    r.on_read = Some(Box::new(move |_| {
        if !armed {
            armed = true;
            crate::alloc::arm(nth);
        }
    }));
    let opts = cfg.options();
    let mut delivered = 0usize;
    let end = {
        match opts.read_info(r) {
            Err(e) => Some(e),
            // pixel decoding allocates infallibly by design: only the opening is in question there
            Ok(_) if !skip => None,
            Ok(mut dec) => loop {
                match dec.read_next_frame() {
                    Ok(Some(f)) => {
                        let v: Check = crate::alloc::exempt(|| {
                            let rec = FrameRec::of(f);
                            let Some(e) = b.frames.get(delivered) else { return violation("extra-frame", "more frames than the stream has") };
                            check_delivered(delivered, &rec, e, &m, &cfg)
                        });
                        v?;
                        delivered += 1;
                        sim.ev("frame", delivered as u64, 0);
                    }
                    Ok(None) => break None,
                    Err(e) => break Some(e),
                }
            },
        }
    };
    let (_, fired) = crate::alloc::disarm();
    sim.ev("alloc-fault", nth, fired);
    if fired > 0 {
        sim.nontrivial();
        sim.probe("alloc fault: allocation failed");
        let Some(e) = end else {
            return violation("swallowed", format!("allocation {nth} failed, and the stream was decoded to its end ({delivered} frames)"));
        };
        let e = End::of(&e);
        ensure!(matches!(e, End::Io(io::ErrorKind::OutOfMemory, _)), "wrong-error", "allocation {nth} failed, reported as {e:?}");
    } else {
        ensure!(end.is_none(), "error", "{:?} without a failed allocation", end.map(|e| End::of(&e)));
        ensure!(!skip || delivered == b.frames.len(), "frame-missing", "{delivered} of {} frames", b.frames.len());
    }
    Ok(())
}

//! Properties of the pull decoder under every delivery of its input.

use super::Prop;
use crate::ensure;
use crate::gifgen::{self, gen_model, Built, ExpFrame, Model, Opts};
use crate::rec::*;
use crate::sim::{hash_bytes, violation, Check, Lane, Sim};
use crate::world::{Delivery, SimReader};
use std::sync::Arc;

pub const READER_STUB: &str = "input reader (simulated: chunking, interruptions, errors, end of file), consumer (simulated: order of API calls)";

pub fn setup(sim: &Sim, o: &Opts) -> (Model, Built) {
    let m = gen_model(sim, o);
    let b = m.build();
    sim.note(|| gifgen::describe(&m));
    sim.ev("stream", b.bytes.len() as u64, hash_bytes(&b.bytes));
    probes(sim, &b);
    (m, b)
}

/// Drawn strictness options that this stream has nothing to fear from.
pub fn harmless(sim: &Sim, m: &Model, b: &Built, cfg: Cfg) -> Cfg {
    let fits = |e: &ExpFrame| u32::from(e.left) + u32::from(e.w) <= u32::from(m.w) && u32::from(e.top) + u32::from(e.h) <= u32::from(m.h);
    Cfg {
        consistency: sim.c(3) == 2 && b.frames.iter().all(fits),
        end_code: sim.c(3) == 2 && b.frames.iter().all(|e| e.end_code),
        unknown: sim.c(3) == 2 || b.exts.iter().any(|x| x.unknown_block),
        ..cfg
    }
}

pub fn probes(sim: &Sim, b: &Built) {
    for f in &b.frames {
        if f.interlaced && f.h > 1 {
            sim.probe("interlaced frame");
        }
        if f.w == 0 || f.h == 0 {
            sim.probe("frame without pixels");
        }
        if f.table_full {
            sim.probe("LZW table full");
        }
        if f.sub_blocks > 1 {
            sim.probe("several image sub-blocks");
        }
        if !f.end_code {
            sim.probe("no LZW end code");
        }
        if f.lzw.len() <= 8 {
            sim.probe("tiny LZW data");
        }
    }
    if b.bytes.len() > 8192 {
        sim.probe("stream larger than the read buffer");
    }
    if b.frames.is_empty() {
        sim.probe("stream without frames");
    }
}

pub fn reader(sim: &Sim, b: &Built, eintr: bool) -> SimReader {
    let d = Delivery::pick(sim);
    let mut r = SimReader::new(sim, b.bytes.clone(), b.bounds.clone(), d);
    if eintr && sim.chance(Lane::Fault, 1, 2) {
        r = r.eintr(1, [2, 4, 10, 40][sim.f(4) as usize]);
    }
    r
}

pub fn pick_drain(sim: &Sim) -> Drain {
    [Drain::ReadNextFrame, Drain::Iterator, Drain::InfoThenBuffer][sim.c(3) as usize]
}

// ------------------------------------------------------------------ C01

pub static C01: Prop = Prop {
    id: "C01",
    run: c01,
    quick_runs: 500_000,
    level: "exploration",
    rule: "generated stream (well-formed, or damaged at random bytes) decoded twice through the same API: once delivered whole, once under a drawn delivery schedule with interruptions; non-trivial = the second delivery used at least 3 reads and the stream has at least one frame",
    stubs: READER_STUB,
    assumptions: &["damage is put outside compressed pixel data; where the input ends inside the data of a frame all of whose pixels arrived, that frame may be delivered or not; likewise where damage makes a frame's data contain an invalid code after its last pixel"],
};

fn c01(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.in_palette = sim.w(4) != 3;
    o.excess = true;
    o.odd_mcs = true;
    o.unknown_blocks = sim.w(4) == 3;
    let mut m = gen_model(sim, &o);
    let cfg = Cfg {
        rgba: sim.c(2) == 1,
        skip: sim.c(5) == 4,
        consistency: sim.c(5) == 4,
        end_code: sim.c(5) == 4,
        unknown: sim.c(3) == 2,
        limit: None,
    };
    // malformations whose outcome does not depend on where LZW output happens to stop
    for it in &mut m.items {
        if let gifgen::Item::Image(im) = it {
            if sim.chance(Lane::Work, 1, 20) {
                im.missing = 1 + sim.w(30) as u32;
            }
        }
    }
    let b = m.build();
    sim.note(|| gifgen::describe(&m));
    let mut bytes = (*b.bytes).clone();
    // structural damage: anything outside the compressed data
    let mut damaged = false;
    if sim.chance(Lane::Work, 1, 4) {
        for _ in 0..1 + sim.w(3) {
            let p = sim.w(bytes.len() as u64) as usize;
            if b.frames.iter().any(|f| p >= f.mcs_off && p < f.end) {
                continue;
            }
            bytes[p] = match sim.w(4) {
                0 => 0,
                1 => bytes[p] ^ (1 << sim.w(8)),
                2 => [0x21, 0x2C, 0x3B, 0xF9, 0xFF, 0xFE][sim.w(6) as usize],
                _ => sim.w(256) as u8,
            };
            damaged = true;
        }
    }
    if sim.chance(Lane::Work, 1, 8) {
        let n = sim.w(bytes.len() as u64 + 1) as usize;
        bytes.truncate(n);
        damaged = true;
    }
    if damaged {
        sim.probe("damaged stream");
    }
    sim.ev("stream", bytes.len() as u64, hash_bytes(&bytes));
    probes(sim, &b);
    let data = Arc::new(bytes);
    let how = pick_drain(sim);
    let how = if cfg.skip && how == Drain::InfoThenBuffer { Drain::ReadNextFrame } else { how };
    let mut cfg = cfg;
    if damaged {
        // a damaged size field may ask for a lot of memory
        cfg.limit = Some(4_000_000);
    }
    let base = drain(sim, &cfg, SimReader::plain(sim, data.clone()), how);
    let mut r = SimReader::new(sim, data, b.bounds.clone(), Delivery::pick(sim));
    if sim.chance(Lane::Fault, 1, 2) {
        r = r.eintr(1, [2, 4, 10, 40][sim.f(4) as usize]);
    }
    let view = r.view();
    let got = drain(sim, &cfg, r, how);
    if view.reads.load(std::sync::atomic::Ordering::SeqCst) >= 3 && !b.frames.is_empty() {
        sim.nontrivial();
    }
    if !base.frames.is_empty() {
        sim.probe("frames delivered");
    }
    if base.info != got.info {
        return violation("info-differs", format!("stream info differs with the delivery: {:?} vs {:?}; ends {:?} / {:?}", base.info, got.info, base.end, got.end));
    }
    check_kept_info(&base)?;
    check_kept_info(&got)?;
    let mut end_matters = true;
    let (mut bf, mut gf) = (&base.frames[..], &got.frames[..]);
    if damaged && base.end.is_eof() && got.end.is_eof() && bf.len().abs_diff(gf.len()) == 1 {
        // the input ends inside a frame's data after its last pixel: it may or may not be delivered
        let n = bf.len().min(gf.len());
        (bf, gf) = (&bf[..n], &gf[..n]);
        sim.probe("frame cut by the end of input");
    }
    // Damage that shifts structures can turn anything into compressed data. Whether a code that is
    // invalid is even looked at when all pixels are there already depends on the delivery.
    let bad_code = |e: &End| matches!(e, End::Io(std::io::ErrorKind::InvalidData, m) if m.contains("invalid code"));
    if damaged && (bad_code(&base.end) && bf.len() <= gf.len() || bad_code(&got.end) && gf.len() <= bf.len()) && base.end != got.end {
        let n = bf.len().min(gf.len());
        (bf, gf) = (&bf[..n], &gf[..n]);
        sim.probe("invalid code after the last pixel");
        end_matters = false;
    }
    if let Some(d) = diff_frames(bf, gf) {
        return violation("frames-differ", format!("whole vs chunked delivery: {d}; ends {:?} / {:?}", base.end, got.end));
    }
    ensure!(!end_matters || base.end.same_kind(&got.end), "end-differs", "whole delivery ends with {:?}, chunked delivery with {:?}", base.end, got.end);
    Ok(())
}

// ------------------------------------------------------------------ C02

pub static C02: Prop = Prop {
    id: "C02",
    run: c02,
    quick_runs: 500_000,
    level: "exploration",
    rule: "well-formed stream written by an independent serialiser and LZW encoder from a drawn model, decoded under a drawn delivery schedule; everything decoded is compared with the model; non-trivial = at least one frame with pixels was compared",
    stubs: READER_STUB,
    assumptions: &["disposal methods 4..7 and the disposal of frames without a control block are not specified by the format"],
};

fn c02(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.min_frames = 0;
    o.max_frames = 5;
    let (m, b) = setup(sim, &o);
    let cfg = harmless(sim, &m, &b, Cfg { rgba: sim.c(2) == 1, limit: wide_limit(sim), ..Cfg::default() });
    let how = pick_drain(sim);
    let out = drain(sim, &cfg, reader(sim, &b, true), how);
    check_against_model(sim, &m, &b, &cfg, &out)
}

/// What the decoder says about the whole stream does not change while it goes through it.
pub fn check_kept_info(out: &Outcome) -> Check {
    if let Some(end) = &out.info_end {
        ensure!(out.info.as_ref() == Some(end), "info-changed", "{:?} at first, {end:?} at the end", out.info);
    }
    Ok(())
}

pub fn check_against_model(sim: &Sim, m: &Model, b: &Built, cfg: &Cfg, out: &Outcome) -> Check {
    let Some(info) = &out.info else {
        return violation("refused", format!("a well-formed stream was refused: {:?}", out.end));
    };
    check_info(info, m, b.repeat_before_first)?;
    check_kept_info(out)?;
    for (i, e) in b.frames.iter().enumerate() {
        let Some(got) = out.frames.get(i) else {
            return violation("frame-missing", format!("frame {i} of {} was not delivered; the end was {:?}", b.frames.len(), out.end));
        };
        check_frame(i, got, e, m, cfg.rgba)?;
        ensure!(!got.interlaced, "interlace-flag", "frame {i} is delivered in row order but still marked interlaced");
        if !e.pixels.is_empty() {
            sim.nontrivial();
        }
    }
    ensure!(out.frames.len() == b.frames.len(), "extra-frame", "{} frames delivered, the stream has {}", out.frames.len(), b.frames.len());
    ensure!(out.end == End::Done, "bad-end", "a well-formed stream ended with {:?}", out.end);
    Ok(())
}

// ------------------------------------------------------------------ C03

pub static C03: Prop = Prop {
    id: "C03",
    run: c03,
    quick_runs: 400_000,
    level: "exploration",
    rule: "well-formed stream decoded by a drawn history of calls (per frame: whole-frame read, info then buffer of exact or larger size, info then piecewise fills of drawn sizes, partial fill then abandon, skip; or the iterator), under a drawn delivery; each delivered frame is compared with the plain whole-frame read; non-trivial = at least 2 different access paths were used",
    stubs: READER_STUB,
    assumptions: &["pixels whose index lies outside the palette leave the caller's buffer untouched; buffers handed in are zeroed"],
};

fn c03(sim: &Sim) -> Check {
    let mut o = Opts::standard();
    o.max_frames = 5;
    o.in_palette = sim.w(4) != 3;
    o.excess = true;
    o.unknown_blocks = sim.w(4) == 3;
    let (m, b) = setup(sim, &o);
    let cfg = harmless(sim, &m, &b, Cfg { rgba: sim.c(2) == 1, limit: wide_limit(sim), ..Cfg::default() });
    let base = drain(sim, &Cfg { end_code: false, consistency: false, limit: None, ..cfg.clone() }, SimReader::plain(sim, b.bytes.clone()), Drain::ReadNextFrame);
    ensure!(base.end == End::Done && base.frames.len() == b.frames.len(), "reference", "plain whole-frame reading of a well-formed stream gave {} of {} frames and ended with {:?}", base.frames.len(), b.frames.len(), base.end);
    let mut dec = match cfg.open(reader(sim, &b, false)) {
        Ok(d) => d,
        Err(e) => return violation("open", format!("{:?}", End::of(&e))),
    };
    ensure!(Some(Info::of(&dec)) == base.info, "info", "{:?} vs {:?}", Info::of(&dec), base.info);
    let bpp = if cfg.rgba { 4 } else { 1 };
    let mut used = [false; 8];
    // the last frames may be taken by iterator, after any history
    let by_iter = if sim.c(4) == 3 { sim.c(base.frames.len() as u64 + 1) as usize } else { usize::MAX };
    for (i, want) in base.frames.iter().enumerate() {
        if i >= by_iter {
            break;
        }
        let path = [0, 1, 2, 3, 4, 5, 6][sim.c(7) as usize];
        used[path] = true;
        sim.ev("path", path as u64, i as u64);
        if path == 0 {
            match dec.read_next_frame() {
                Ok(Some(f)) => {
                    let got = FrameRec::of(f);
                    ensure!(got == *want, "whole-frame", "frame {i}: {} vs {}", got.short(), want.short());
                }
                r => return violation("whole-frame", format!("frame {i}: {:?}", r.map(|_| "none").map_err(|e| End::of(&e)))),
            }
            sizes(&dec, want, bpp, i)?;
            palette(&dec, want, i)?;
            continue;
        }
        let meta = match dec.next_frame_info() {
            Ok(Some(f)) => FrameRec::of(f),
            r => return violation("frame-info", format!("frame {i}: {:?}", r.map(|_| "none").map_err(|e| End::of(&e)))),
        };
        ensure!(meta.meta_eq(want), "frame-info", "frame {i}: {} vs {}", meta.short(), want.short());
        ensure!(meta.buffer.is_empty(), "frame-info", "frame {i}: info carries {} bytes of pixels", meta.buffer.len());
        ensure!(meta.interlaced == b.frames[i].interlaced, "frame-info", "frame {i}: interlace flag {}", meta.interlaced);
        sizes(&dec, want, bpp, i)?;
        palette(&dec, want, i)?;
        match path {
            1 | 2 => {
                let extra = if path == 2 { 1 + sim.c(50) as usize } else { 0 };
                let mut buf = vec![0; want.buffer.len()];
                buf.resize(want.buffer.len() + extra, 0xA5);
                if let Err(e) = dec.read_into_buffer(&mut buf) {
                    return violation("into-buffer", format!("frame {i}: {:?}", End::of(&e)));
                }
                ensure!(buf[..want.buffer.len()] == want.buffer[..], "into-buffer", "frame {i}: pixels differ from the whole-frame read ({})", want.short());
                ensure!(buf[want.buffer.len()..].iter().all(|&b| b == 0xA5), "into-buffer", "frame {i}: bytes beyond the frame were written");
            }
            3 | 4 => {
                // pieces in stored row order; path 4 abandons half-way
                let row = want.w as usize * bpp;
                let stored = if meta.interlaced && row > 0 { gifgen::interlace(&want.buffer, row, want.h as usize) } else { want.buffer.clone() };
                let total = stored.len();
                let stop_at = if path == 4 { sim.c(total as u64 + 1) as usize } else { total };
                let mut acc: Vec<u8> = Vec::new();
                let empty = sim.c(6) == 5;
                let max = [1, 2, 3, 7, 16, 64, 257, 4096][sim.c(8) as usize];
                while acc.len() < stop_at {
                    let n = ((1 + sim.c(max) as usize) * bpp).min(total - acc.len());
                    let mut piece = vec![0; n];
                    if empty && sim.c(3) == 0 {
                        let r = dec.fill_buffer(&mut []).map_err(|e| End::of(&e));
                        ensure!(r == Ok(true), "fill", "frame {i}: an empty piece is answered with {r:?}");
                        sim.probe("empty piece");
                    }
                    match dec.fill_buffer(&mut piece) {
                        Ok(true) => acc.extend_from_slice(&piece),
                        Ok(false) => return violation("fill", format!("frame {i}: data ended after {} of {total} bytes", acc.len())),
                        Err(e) => return violation("fill", format!("frame {i}: {:?} after {} of {total} bytes", End::of(&e), acc.len())),
                    }
                }
                ensure!(acc[..] == stored[..acc.len()], "fill", "frame {i}: piecewise pixels differ from the whole-frame read, first at {:?}", acc.iter().zip(&stored).position(|(a, b)| a != b));
                match sim.c(5) {
                    // not a whole number of pixels
                    3 if cfg.rgba => {
                        let mut piece = vec![0; sim.c(10) as usize * 4 + 1 + sim.c(3) as usize];
                        let r = dec.fill_buffer(&mut piece).map_err(|e| End::of(&e));
                        ensure!(r.is_err() || total - acc.len() <= piece.len() && r == Ok(false), "fill", "frame {i}: a buffer of {} bytes is answered with {r:?} in RGBA", piece.len());
                        sim.probe("buffer of no whole number of pixels");
                    }
                    // more than there is
                    4 if !b.frames[i].excess && b.frames[i].end_code => {
                        let rest = total - acc.len();
                        let mut piece = vec![0; rest + (1 + sim.c(12) as usize) * bpp];
                        let r = dec.fill_buffer(&mut piece).map_err(|e| End::of(&e));
                        ensure!(r == Ok(false), "fill", "frame {i}: a buffer larger than the remaining {rest} bytes is answered with {r:?}");
                        ensure!(piece[..rest] == stored[acc.len()..], "fill", "frame {i}: pixels differ in a buffer larger than the rest of the frame");
                        ensure!(piece[rest..].iter().all(|&b| b == 0), "fill", "frame {i}: bytes beyond the frame were written");
                        sim.probe("buffer larger than the rest of the frame");
                    }
                    _ => {}
                }
                if path == 4 && acc.len() < total {
                    sim.probe("frame abandoned half-way");
                }
            }
            6 if !want.buffer.is_empty() => {
                // refused, at no cost to the frames that follow
                let mut buf = vec![0; sim.c(want.buffer.len() as u64) as usize];
                let r = dec.read_into_buffer(&mut buf).map_err(|e| End::of(&e));
                ensure!(r.is_err(), "small-buffer", "frame {i}: a buffer of {} instead of {} bytes is accepted", buf.len(), want.buffer.len());
                sim.probe("buffer too small");
            }
            _ => sim.probe("frame skipped"),
        }
        sim.ev("frame-ok", i as u64, 0);
    }
    if by_iter < usize::MAX {
        used[7] = true;
    }
    if used.iter().filter(|u| **u).count() >= 2 {
        sim.nontrivial();
    }
    if by_iter < usize::MAX {
        let mut it = dec.into_iter();
        for (i, want) in base.frames.iter().enumerate().skip(by_iter) {
            match it.next() {
                Some(Ok(f)) => {
                    let got = FrameRec::of(&f);
                    ensure!(got == *want, "iterator", "frame {i}: {} vs {}", got.short(), want.short());
                }
                r => return violation("iterator", format!("frame {i}: {:?}", r.map(|f| f.map(|_| ()).map_err(|e| End::of(&e))))),
            }
        }
        for _ in 0..2 {
            ensure!(it.next().is_none(), "end", "the iterator goes on after the last frame");
        }
        sim.probe("iterator after other calls");
        return Ok(());
    }
    // the end, and it stays the end
    for _ in 0..2 {
        let r = if sim.c(2) == 0 { dec.read_next_frame().map(|f| f.is_some()) } else { dec.next_frame_info().map(|f| f.is_some()) };
        match r {
            Ok(false) => {}
            Ok(true) => return violation("end", "a frame after the last one"),
            Err(e) => return violation("end", format!("{:?}", End::of(&e))),
        }
    }
    Ok(())
}

fn sizes<R: std::io::Read>(d: &gif::Decoder<R>, want: &FrameRec, bpp: usize, i: usize) -> Check {
    ensure!(d.buffer_size() == want.buffer.len(), "buffer-size", "frame {i}: reported size {}, delivered {}", d.buffer_size(), want.buffer.len());
    ensure!(d.line_length() == want.w as usize * bpp, "line-length", "frame {i}: {}", d.line_length());
    Ok(())
}

fn palette<R: std::io::Read>(d: &gif::Decoder<R>, want: &FrameRec, i: usize) -> Check {
    let p = d.palette().map(<[u8]>::to_vec).map_err(|e| End::of(&e));
    let w = want.palette.clone().or_else(|| d.global_palette().map(<[u8]>::to_vec));
    ensure!(p.as_ref().ok() == w.as_ref(), "palette", "frame {i}: effective palette {:?} vs {:?} bytes", p.map(|p| p.len()), w.map(|p| p.len()));
    Ok(())
}

//! Several users of the library at the same time: threads, interleaved calls, hash seeds.

use super::Prop;
use crate::baton::{run_threads, Baton};
use super::encode::{apply, describe, gen_script, reference, specs, How, Op, Script, Spec};
use crate::ensure;
use super::faults::{mutate, pick_offset};
use crate::gifgen::{gen_model, Opts};
use crate::rec::*;
use crate::rng::{mix, Rng};
use crate::sim::{hash_bytes, violation, Check, Lane, Sim};
use crate::world::{sink_bytes, Accept, Delivery, FaultKind, ReadFault, SimReader, SimWriter, Sink, WriteFault};
use crate::{alloc, entropy};
use gif::streaming_decoder::{Decoded, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{ColorOutput, DecodeOptions, Decoder, Encoder, EncodingError, Frame};
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ C18

pub static C18: Prop = Prop {
    id: "C18",
    run: c18,
    quick_runs: 150_000,
    level: "exploration",
    rule: "drawn frames compressed beforehand by 1 to 4 threads in a drawn order, switching at every allocation and write as drawn, while the encoder writes the frames in order as they become available; bytes compared with direct writing; non-trivial = at least two frames with pixels and one context switch between unfinished jobs",
    stubs: "output sink (simulated), thread scheduler (simulated: one thread at a time, switches drawn at allocations, writes and job boundaries)",
    assumptions: &["frame buffers hold exactly the frame's pixels", "the code under test has no synchronisation of its own, so switching at its allocations and I/O calls is enough to interleave it"],
};

/// Compresses one frame the way a drawn number says.
fn compress(s: &Spec, style: u64) -> Frame<'static> {
    match style {
        1 => {
            // buffer borrowed from somewhere else
            let px = s.raster();
            let mut f = Frame { buffer: Cow::Borrowed(&px), ..s.frame() };
            f.make_lzw_pre_encoded();
            let buffer = Cow::Owned(f.buffer.to_vec());
            Frame { buffer, ..s.frame() }
        }
        2 => {
            // a copy of a frame that is compressed elsewhere as well
            let f = s.frame();
            let mut g = f.clone();
            g.make_lzw_pre_encoded();
            g
        }
        _ => {
            let mut f = s.frame();
            f.make_lzw_pre_encoded();
            f
        }
    }
}

fn c18(sim: &Sim) -> Check {
    let mut s = gen_script(sim, 8, false);
    for op in &mut s.ops {
        if let Op::Frame(f) = op {
            f.how = How::Direct;
            // a buffer may hold more than the frame's pixels
            if !f.interlaced && !f.pixels.is_empty() && sim.chance(Lane::Work, 1, 8) {
                let n = [1, 3, 40, 300][sim.w(4) as usize];
                let k = f.pixels.len();
                for i in 0..n {
                    f.pixels.push(f.pixels[i * 7 % k] ^ u8::from(i == n - 1 && sim.w(3) == 2));
                }
                sim.probe("buffer longer than the frame");
            }
        }
    }
    sim.note(|| describe(&s));
    let (mut want, _) = reference(&s)?;
    want.push(0x3B);
    let frames: Vec<Spec> = specs(&s).into_iter().cloned().collect();
    let n = frames.len();
    let workers = 1 + sim.w(4) as usize;
    let fine = sim.s(4) != 0;
    let with_encoder = sim.w(2) == 1;
    // who compresses what, in which order
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, sim.s(i as u64 + 1) as usize);
    }
    let mut share: Vec<Vec<(usize, u64)>> = vec![Vec::new(); workers];
    for i in order {
        let w = sim.s(workers as u64) as usize;
        share[w].push((i, sim.w(3)));
    }
    type Slots = Arc<Mutex<Vec<Option<Frame<'static>>>>>;
    let slots: Slots = Arc::new(Mutex::new(vec![None; n]));
    let frames = Arc::new(frames);
    let mut jobs: Vec<Box<dyn FnOnce(Baton) -> Result<(), String> + Send>> = Vec::new();
    for list in share {
        let (slots, frames, sim) = (slots.clone(), frames.clone(), sim.clone());
        jobs.push(Box::new(move |b| {
            for (i, style) in list {
                b.yield_now();
                let f = if fine { alloc::yielding(&b, || compress(&frames[i], style)) } else { compress(&frames[i], style) };
                sim.ev("compressed", i as u64, hash_bytes(&f.buffer));
                slots.lock().unwrap_or_else(|e| e.into_inner())[i] = Some(f);
            }
            Ok(())
        }));
    }
    let sink = Sink::default();
    let write_all = {
        let (slots, frames, sim, s) = (slots.clone(), frames.clone(), sim.clone(), s.clone());
        let sink = sink.clone();
        move |b: Option<&Baton>| -> Result<(), String> {
            let mut w = SimWriter::new(&sim, &sink, Accept::pick(&sim));
            if let Some(b) = b {
                w = w.baton(b.clone());
            }
            let mut enc = Encoder::new(w, s.w, s.h, &s.global).map_err(|e| e.to_string())?;
            let mut k = 0;
            for op in &s.ops {
                let Op::Frame(_) = op else {
                    apply(&mut enc, op).map_err(|e| e.to_string())?;
                    continue;
                };
                let mut got = None;
                for _ in 0..8 {
                    got = slots.lock().unwrap_or_else(|e| e.into_inner())[k].take();
                    match (got.is_some(), b) {
                        (false, Some(b)) => b.yield_now(),
                        _ => break,
                    }
                }
                // nobody did it yet: do it here
                let f = match got {
                    Some(f) => f,
                    None => compress(&frames[k], 0),
                };
                k += 1;
                enc.write_lzw_pre_encoded_frame(&f).map_err(|e| e.to_string())?;
            }
            enc.into_inner().map_err(|e| e.to_string())?;
            Ok(())
        }
    };
    if with_encoder {
        let w = write_all.clone();
        jobs.push(Box::new(move |b| w(Some(&b))));
    }
    let (results, switches) = run_threads(sim, jobs);
    if switches > 0 {
        sim.count("delivery: context switches", switches);
    }
    for r in results {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return violation("refused", e),
            Err(p) => return violation("panic", format!("a thread panicked at {p}")),
        }
    }
    if !with_encoder {
        if let Err(e) = write_all(None) {
            return violation("refused", e);
        }
    }
    let got = sink_bytes(&sink);
    sim.ev("encoded", got.len() as u64, hash_bytes(&got));
    if frames.iter().filter(|f| !f.pixels.is_empty()).count() >= 2 && switches > 2 {
        sim.nontrivial();
    }
    ensure!(got == want, "bytes-differ", "{} bytes, {} when written directly, first difference at {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    Ok(())
}

// ------------------------------------------------------------------ C19

pub static C19: Prop = Prop {
    id: "C19",
    run: c19,
    quick_runs: 80_000,
    level: "exploration",
    rule: "drawn RGB or RGBA picture of a drawn number of distinct colours, made into a frame by several threads with different simulated hash seeds, switching at allocations as drawn; results compared with the picture and with each other, then encoded and decoded under a drawn delivery; non-trivial = at least two colours and at least two different hash seeds used",
    stubs: "entropy source (simulated getrandom), thread scheduler, output sink, input reader (simulated)",
    assumptions: &["invisible pixels count as one colour, whatever colour they carry; exactness is claimed up to 256 colours in total, reproducibility always"],
};

#[derive(Clone)]
struct Picture {
    w: u16,
    h: u16,
    rgba: Vec<u8>,
    alpha: bool,
    speed: Option<i32>,
    /// distinct colours as the format sees them
    colors: usize,
}

fn picture(sim: &Sim) -> Picture {
    let big = sim.chance(Lane::Work, 1, 100);
    let (w, h) = match sim.weighted(Lane::Work, &[6, 4, 2, 1]) {
        _ if big => [(300, 300), (257, 256), (700, 400), (65535, 2)][sim.w(4) as usize],
        0 => (1 + sim.w(9), 1 + sim.w(9)),
        1 => (16 + sim.w(8), 16 + sim.w(6)),
        2 => (1 + sim.w(300), 1 + sim.w(3)),
        _ => [(0, 0), (0, 3), (4, 0), (16, 16)][sim.w(4) as usize],
    };
    let n = (w * h) as usize;
    let over = sim.w(16) == 15 && !big;
    let k = if over {
        [257, 258][sim.w(4).min(1) as usize] + sim.w(2) * sim.w(60)
    } else {
        match sim.w(4) {
            0 => [2, 1, 3, 4, 5, 16, 17, 255][sim.w(8) as usize],
            1 => [256, 255, 254, 129, 128][sim.w(5) as usize],
            _ => 1 + sim.w(256),
        }
    };
    let alpha = sim.w(3) != 2;
    let mut r = Rng::new(sim.w(1 << 16) ^ 0xc19);
    // colours that differ in one component only, or anywhere
    let style = sim.w(3);
    let base = r.next();
    let mut pool: Vec<[u8; 3]> = Vec::new();
    for i in 0..k {
        pool.push(match style {
            0 => [i as u8, (i >> 8) as u8 ^ (base as u8 & 0x80), base as u8],
            1 => [base as u8, (base >> 8) as u8, i as u8 ^ (i >> 8) as u8],
            _ => {
                let v = r.next();
                [v as u8, (v >> 8) as u8, (v >> 16) as u8]
            }
        });
    }
    let invisible = if alpha { [0, 3, 1][sim.w(3) as usize] } else { 0 };
    let shared = sim.w(2) == 1;
    if invisible > 0 && !shared && !over {
        // leave room for the invisible one
        pool.truncate(255);
    } else if invisible > 0 && !over {
        pool.truncate(255);
    }
    let odd_alpha = alpha && sim.w(2) == 1;
    let seq = sim.w(2) == 1;
    let mut rgba = Vec::with_capacity(n * 4);
    for i in 0..n {
        let c = pool[if seq && i < pool.len() { i } else { r.below(pool.len() as u64) as usize }];
        if invisible > 0 && r.below(8) < invisible {
            // an invisible pixel carries some colour: a visible one's, or its own
            let c = if shared { c } else { [r.next() as u8, 7, 9] };
            rgba.extend_from_slice(&[c[0], c[1], c[2], 0]);
        } else {
            let a = if odd_alpha { 1 + r.below(255) as u8 } else { 255 };
            rgba.extend_from_slice(&[c[0], c[1], c[2], a]);
        }
    }
    let mut set = std::collections::BTreeSet::new();
    for p in rgba.chunks_exact(4) {
        set.insert(if p[3] == 0 { None } else { Some([p[0], p[1], p[2]]) });
    }
    let speed = if sim.w(3) == 0 && !over { None } else { Some(if over { 30 } else { 1 + sim.w(30) as i32 }) };
    Picture { w: w as u16, h: h as u16, rgba, alpha, speed, colors: set.len() }
}

/// A picture easily mistaken for this one: as many pixels, and about the same colours.
fn relative(p: &Picture, seed: u64) -> Picture {
    let mut r = Rng::new(seed);
    let mut q = p.clone();
    let n = q.rgba.len() / 4;
    if n < 2 {
        return q;
    }
    let (a, b) = (r.below(n as u64) as usize * 4, r.below(n as u64) as usize * 4);
    let (ca, cb) = ([q.rgba[a], q.rgba[a + 1], q.rgba[a + 2]], [q.rgba[b], q.rgba[b + 1], q.rgba[b + 2]]);
    match r.below(6) {
        // something of one colour goes to another: the sums stay the same
        0..=2 => {
            let ch = r.below(3) as usize;
            let d = 1 + r.below(3) as u8;
            if ca != cb && ca[ch] <= 255 - d && cb[ch] >= d {
                for px in q.rgba.chunks_exact_mut(4) {
                    if px[..3] == ca {
                        px[ch] += d;
                    } else if px[..3] == cb {
                        px[ch] -= d;
                    }
                }
            }
        }
        3 => {
            for px in q.rgba.chunks_exact_mut(4) {
                if px[..3] == ca {
                    px[..3].copy_from_slice(&cb);
                } else if px[..3] == cb {
                    px[..3].copy_from_slice(&ca);
                }
            }
        }
        4 => (0..4).for_each(|i| q.rgba.swap(a + i, b + i)),
        _ => {
            std::mem::swap(&mut q.w, &mut q.h);
            if q.alpha && q.colors < 256 {
                q.rgba[a + 3] = if q.rgba[a + 3] == 0 { 255 } else { 0 };
            }
        }
    }
    q
}

fn make_frame(p: &Picture) -> Frame<'static> {
    if p.alpha {
        let mut px = p.rgba.clone();
        match p.speed {
            None => Frame::from_rgba(p.w, p.h, &mut px),
            Some(s) => Frame::from_rgba_speed(p.w, p.h, &mut px, s),
        }
    } else {
        let px: Vec<u8> = p.rgba.chunks_exact(4).flat_map(|c| [c[0], c[1], c[2]]).collect();
        match p.speed {
            None => Frame::from_rgb(p.w, p.h, &px),
            Some(s) => Frame::from_rgb_speed(p.w, p.h, &px, s),
        }
    }
}

fn c19(sim: &Sim) -> Check {
    let p = Arc::new(picture(sim));
    sim.note(|| format!("{}x{} alpha={} speed={:?} colours={} {:02x?}", p.w, p.h, p.alpha, p.speed, p.colors, &p.rgba[..p.rgba.len().min(64)]));
    sim.ev("picture", p.colors as u64, hash_bytes(&p.rgba));
    sim.probe(match p.colors {
        0 | 1 => "picture: at most one colour",
        255 => "picture: 255 colours",
        256 => "picture: 256 colours",
        257.. => "picture: more than 256 colours",
        _ => "picture: 2 to 254 colours",
    });
    let threads = 2 + sim.s(2);
    let fine = sim.s(3) != 0;
    let before = entropy::calls();
    let mut jobs: Vec<Box<dyn FnOnce(Baton) -> Frame<'static> + Send>> = Vec::new();
    for _ in 0..threads {
        let seed = sim.s(1 << 32);
        let p = p.clone();
        // what else the thread did before
        let before = (p.colors <= 256 && sim.s(3) != 0).then(|| relative(&p, seed));
        jobs.push(Box::new(move |b| {
            b.yield_now();
            entropy::seed(mix(seed));
            if let Some(q) = &before {
                make_frame(q);
            }
            if fine {
                alloc::yielding(&b, || make_frame(&p))
            } else {
                make_frame(&p)
            }
        }));
    }
    let (frames, switches) = run_threads(sim, jobs);
    let asked = entropy::calls() - before;
    sim.count("fault: hash seeds drawn", asked);
    sim.count("delivery: context switches", switches);
    let mut first: Option<FrameRec> = None;
    for f in frames {
        let f = match f {
            Ok(f) => FrameRec::of(&f),
            Err(e) => return violation("panic", format!("making the frame panicked at {e}")),
        };
        sim.ev("frame", f.palette.as_ref().map_or(0, Vec::len) as u64, hash_bytes(&f.buffer));
        if let Some(g) = &first {
            ensure!(*g == f, "not-reproducible", "two threads make different frames of the same {} colours: [{}] [{}]", p.colors, g.short(), f.short());
        } else {
            first = Some(f);
        }
    }
    let Some(f) = first else { return Ok(()) };
    ensure!((f.w, f.h) == (p.w, p.h) && f.buffer.len() * 4 == p.rgba.len(), "size", "{}", f.short());
    ensure!((f.left, f.top, f.delay, f.user_input, f.interlaced) == (0, 0, 0, false, false), "metadata", "{}", f.short());
    let Some(pal) = &f.palette else { return violation("palette", "no palette") };
    ensure!(pal.len() <= 768 && pal.len() % 3 == 0, "palette", "{} bytes", pal.len());
    if p.colors > 256 {
        return Ok(());
    }
    if p.colors >= 2 && asked >= 2 {
        sim.nontrivial();
    }
    for (i, (px, &x)) in p.rgba.chunks_exact(4).zip(&f.buffer).enumerate() {
        if px[3] == 0 {
            ensure!(f.transparent == Some(x), "visible", "pixel {i} is invisible, its index is {x}, the transparent one {:?}", f.transparent);
        } else {
            ensure!(f.transparent != Some(x), "invisible", "pixel {i} is visible, its index {x} is transparent");
            let c = pal.get(usize::from(x) * 3..usize::from(x) * 3 + 3);
            ensure!(c == Some(&px[..3]), "color", "pixel {i} is {:?}, its index {x} means {c:?} ({} colours)", &px[..3], p.colors);
        }
    }
    // through a file
    let sink = Sink::default();
    let mut enc = match Encoder::new(SimWriter::new(sim, &sink, Accept::pick(sim)), p.w, p.h, if sim.c(2) == 0 { &[] } else { &[1, 2, 3] }) {
        Ok(e) => e,
        Err(e) => return violation("refused", e.to_string()),
    };
    let mut fr = make_frame(&p);
    let r = if sim.c(2) == 0 {
        enc.write_frame(&fr)
    } else {
        fr.make_lzw_pre_encoded();
        enc.write_lzw_pre_encoded_frame(&fr)
    };
    if let Err(e) = r {
        return violation("refused", e.to_string());
    }
    drop(enc);
    let mut r = SimReader::new(sim, Arc::new(sink_bytes(&sink)), Arc::new(Vec::new()), Delivery::pick(sim));
    if sim.chance(Lane::Fault, 1, 3) {
        r = r.eintr(1, 8);
    }
    let out = drain(sim, &Cfg { rgba: true, ..Cfg::default() }, r, super::decode::pick_drain(sim));
    ensure!(out.end == End::Done && out.frames.len() == 1, "round-trip", "{} frames, {:?}", out.frames.len(), out.end);
    let got = &out.frames[0].buffer;
    ensure!(got.len() == p.rgba.len(), "round-trip", "{} bytes", got.len());
    for (i, (a, b)) in p.rgba.chunks_exact(4).zip(got.chunks_exact(4)).enumerate() {
        let ok = if a[3] == 0 { b[3] == 0 } else { b[3] == 255 && a[..3] == b[..3] };
        ensure!(ok, "round-trip", "pixel {i} is {a:?}, decoded {b:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

pub static C20: Prop = Prop {
    id: "C20",
    run: c20,
    quick_runs: 80_000,
    level: "exploration",
    rule: "2 to 4 (now and then up to 70) drawn jobs (pull decoder, push decoder, encoder, frame maker; some on damaged input or failing I/O), each a function of its own seed, run alone on fresh threads, then again all together: interleaved call by call in one thread, nested in one another's reads, on threads switching at I/O calls and allocations, or moving between threads; every result and every I/O call of each job compared; non-trivial = at least two jobs of three steps and three switches",
    stubs: "input reader, output sink, thread scheduler, entropy (simulated), caller (simulated)",
    assumptions: &["interleavings are at the granularity of API calls, I/O calls and allocations"],
};

/// Where a job's decisions come from. Relatives have the seed in common and differ in their twist only:
/// the same picture with two bytes exchanged, say. Nobody else's data looks so much like one's own.
#[derive(Clone, Copy)]
struct Origin {
    seed: u64,
    twist: u64,
}

impl Origin {
    fn exchange(self, data: &mut [u8], from: usize, to: usize) {
        let to = to.min(data.len());
        if self.twist == 0 || from + 1 >= to {
            return;
        }
        let mut r = Rng::new(self.twist);
        let near = r.below(2) == 1;
        for _ in 0..1 + r.below(2) {
            let a = from + r.below((to - from) as u64) as usize;
            let b = if near { from + (a + 1 - from) % (to - from) } else { from + r.below((to - from) as u64) as usize };
            if data[a] == data[b] {
                data[a] ^= 1;
            } else {
                data.swap(a, b);
            }
        }
    }
}

/// A user of the library that does one thing per step, deciding everything from its own seed.
struct Job {
    sub: Sim,
    kind: Kind,
    log: Vec<(&'static str, u64, u64)>,
    steps: u32,
    /// gives up after so many, whatever it was doing
    patience: u32,
    errors: u32,
}

enum Kind {
    Closed(Option<SimReader>, Cfg),
    Pull(Box<Decoder<SimReader>>, Cfg),
    Push(Box<StreamingDecoder>, Arc<Vec<u8>>, usize),
    Enc(Option<Box<Encoder<SimWriter>>>, Box<Script>, usize, Sink),
    Make(Vec<Picture>, Vec<Frame<'static>>),
    Over,
}

fn text(e: &dyn std::fmt::Display) -> u64 {
    hash_bytes(e.to_string().as_bytes())
}

impl Job {
    fn new(from: Origin, baton: Option<Baton>) -> Job {
        alloc::exempt(|| Self::build(from, baton))
    }

    fn build(from: Origin, baton: Option<Baton>) -> Job {
        let sub = Sim::generate(from.seed, false);
        let patience = if sub.c(3) == 2 { 2 + sub.c(8) as u32 } else { 60 };
        let kind = match sub.w(6) {
            0..=2 => {
                let (data, bounds, offs) = stream(&sub, from);
                let mut r = SimReader::new(&sub, data, bounds, Delivery::pick(&sub));
                if sub.chance(Lane::Fault, 1, 3) {
                    r = r.eintr(1, 8);
                }
                if sub.chance(Lane::Fault, 1, 3) {
                    let kind = FaultKind::pick(&sub);
                    r = r.faults(vec![ReadFault { at: offs, kind, times: 1 + sub.f(2) as u32 }]);
                }
                if let Some(b) = baton {
                    r = r.baton(b);
                }
                let cfg = Cfg {
                    rgba: sub.c(2) == 1,
                    skip: sub.c(4) == 3,
                    consistency: sub.c(8) == 7,
                    end_code: sub.c(8) == 7,
                    unknown: sub.c(2) == 1,
                    limit: Some(1_000_000),
                };
                Kind::Closed(Some(r), cfg)
            }
            3 => {
                let (data, _, _) = stream(&sub, from);
                Kind::Push(Box::new(StreamingDecoder::new()), data, 0)
            }
            4 => {
                let mut s = gen_script(&sub, 6, true);
                if from.twist % 2 == 1 {
                    from.exchange(&mut s.global, 0, usize::MAX);
                } else {
                    for op in &mut s.ops {
                        if let Op::Frame(f) = op {
                            from.exchange(&mut f.pixels, 0, usize::MAX);
                            if let Some(p) = &mut f.palette {
                                from.exchange(p, 0, usize::MAX);
                            }
                        }
                    }
                }
                let sink = Sink::default();
                let mut w = SimWriter::new(&sub, &sink, Accept::pick(&sub));
                if sub.chance(Lane::Fault, 1, 3) {
                    w = w.eintr(1, 8);
                }
                if sub.chance(Lane::Fault, 1, 4) {
                    let kind = FaultKind::pick(&sub);
                    w = w.faults(vec![WriteFault { at: 20 + sub.f(2000) as usize, kind, times: 1 }]);
                }
                if let Some(b) = baton {
                    w = w.baton(b);
                }
                match Encoder::new(w, s.w, s.h, &s.global) {
                    Ok(e) => Kind::Enc(Some(Box::new(e)), Box::new(s), 0, sink),
                    Err(_) => Kind::Over,
                }
            }
            _ => {
                let mut todo: Vec<Picture> = (0..1 + sub.w(3)).map(|_| picture(&sub)).collect();
                for p in &mut todo {
                    from.exchange(&mut p.rgba, 0, usize::MAX);
                }
                Kind::Make(todo, Vec::new())
            }
        };
        Job { sub, kind, log: Vec::new(), steps: 0, patience, errors: 0 }
    }

    fn put(&mut self, tag: &'static str, a: u64, b: u64) {
        alloc::exempt(|| self.log.push((tag, a, b)));
    }

    fn put_frame(&mut self, f: &FrameRec) {
        let meta = format!("{:?}", (f.left, f.top, f.w, f.h, f.delay, f.dispose, f.user_input, f.transparent, f.interlaced));
        let pal = f.palette.as_deref().map_or(1, hash_bytes);
        self.put("meta", hash_bytes(meta.as_bytes()), pal);
        self.put("pixels", f.buffer.len() as u64, hash_bytes(&f.buffer));
    }

    /// One step; false when there is nothing left to do.
    fn step(&mut self) -> bool {
        self.steps += 1;
        if self.steps > self.patience || self.errors > 2 {
            self.kind = Kind::Over;
        }
        match std::mem::replace(&mut self.kind, Kind::Over) {
            Kind::Over => return false,
            Kind::Closed(r, cfg) => {
                let Some(r) = r else { return false };
                match cfg.open(r) {
                    Ok(d) => {
                        let i = Info::of(&d);
                        self.put("open", u64::from(i.w) << 16 | u64::from(i.h), i.global.as_deref().map_or(1, hash_bytes));
                        self.put("repeat", repeat_u(i.repeat), i.bg.map_or(999, |b| b as u64));
                        self.kind = Kind::Pull(Box::new(d), cfg);
                    }
                    Err(e) => self.put("open-err", text(&e), 0),
                }
            }
            Kind::Pull(mut d, cfg) => {
                if self.pull(&mut d, &cfg) {
                    self.kind = Kind::Pull(d, cfg);
                } else {
                    let left = alloc::exempt(|| d.into_inner().buffer().to_vec());
                    self.put("left", left.len() as u64, hash_bytes(&left));
                }
            }
            Kind::Push(mut d, data, mut pos) => {
                let (id, ext, last) = d.last_ext();
                self.put("last-ext", u64::from(id.0) << 1 | u64::from(last), hash_bytes(ext));
                self.put("screen", u64::from(d.width()) << 16 | u64::from(d.height()), d.version() as u64);
                if pos >= data.len() {
                    return false;
                }
                let n = 1 + self.sub.s(80) as usize;
                let end = (pos + n).min(data.len());
                let mut out = [0u8; 64];
                for _ in 0..400 {
                    if pos >= end {
                        break;
                    }
                    match d.update(&data[pos..end], &mut OutputBuffer::Slice(&mut out)) {
                        Ok((used, ev)) => {
                            pos += used;
                            let (a, b) = match ev {
                                Decoded::BytesDecoded(n) => (n.get() as u64, hash_bytes(&out[..n.get().min(64)])),
                                Decoded::GlobalPalette(p) => (p.len() as u64, hash_bytes(&p)),
                                other => (text(&format!("{other:?}")), 0),
                            };
                            self.put("event", a, b);
                        }
                        Err(e) => {
                            self.put("event-err", text(&e), 0);
                            return true;
                        }
                    }
                }
                self.kind = Kind::Push(d, data, pos);
            }
            Kind::Enc(e, s, i, sink) => {
                let Some(mut enc) = e else { return false };
                match s.ops.get(i) {
                    Some(op) => {
                        let r: Result<(), EncodingError> = apply(&mut enc, op);
                        self.put("encode", i as u64, r.as_ref().err().map_or(0, |e| text(e)));
                        self.kind = Kind::Enc(Some(enc), s, i + 1, sink);
                    }
                    None => {
                        let r = enc.into_inner();
                        self.put("finish", 0, r.as_ref().err().map_or(0, |e| text(e)));
                        drop(r);
                        let b = alloc::exempt(|| sink_bytes(&sink));
                        self.put("encoded", b.len() as u64, hash_bytes(&b));
                    }
                }
            }
            Kind::Make(mut todo, mut done) => {
                if let Some(p) = todo.pop() {
                    let f = make_frame(&p);
                    self.put_frame(&FrameRec::of(&f));
                    done.push(f);
                } else if let Some(mut f) = done.pop() {
                    f.make_lzw_pre_encoded();
                    self.put_frame(&FrameRec::of(&f));
                } else {
                    return false;
                }
                self.kind = Kind::Make(todo, done);
            }
        }
        true
    }

    fn pull(&mut self, d: &mut Decoder<SimReader>, cfg: &Cfg) -> bool {
        let op = if cfg.skip { self.sub.c(2) } else { self.sub.c(5) };
        match op {
            0 => match d.read_next_frame() {
                Ok(Some(f)) => {
                    let rec = FrameRec::of(f);
                    if cfg.skip {
                        let mut fr = f.clone();
                        let mut o = DecodeOptions::new();
                        o.set_color_output(ColorOutput::Indexed);
                        let r = FrameDecoder::new(o).decode_lzw_encoded_frame(&mut fr);
                        self.put("later", r.as_ref().err().map_or(0, |e| text(e)), hash_bytes(&fr.buffer));
                    }
                    self.put_frame(&rec);
                }
                Ok(None) => {
                    self.put("done", 0, 0);
                    return false;
                }
                Err(e) => {
                    self.errors += 1;
                    self.put("err", text(&e), 0);
                }
            },
            1 => match d.next_frame_info() {
                Ok(Some(f)) => {
                    let rec = FrameRec { buffer: Vec::new(), ..FrameRec::of(f) };
                    self.put_frame(&rec);
                }
                Ok(None) => {
                    self.put("done", 0, 0);
                    return false;
                }
                Err(e) => {
                    self.errors += 1;
                    self.put("err", text(&e), 1);
                }
            },
            2 => {
                let n = d.buffer_size();
                if n <= 100_000 {
                    let mut buf = vec![0x5A; n];
                    let r = d.read_into_buffer(&mut buf);
                    let e = r.as_ref().err().map_or(0, |e| text(e));
                    self.errors += u32::from(e != 0);
                    self.put("into-buffer", e, hash_bytes(&buf));
                }
            }
            3 => {
                let n = 1 + self.sub.c(200) as usize;
                let mut buf = vec![0x5A; n];
                let r = d.fill_buffer(&mut buf);
                let e = r.as_ref().err().map_or(0, |e| text(e));
                self.errors += u32::from(e != 0);
                self.put("fill", e, hash_bytes(&buf));
            }
            _ => {
                let p = d.palette().map_or(1, hash_bytes);
                self.put("palette", p, d.line_length() as u64);
            }
        }
        true
    }

    /// What it did, and the fingerprint of all I/O it did for it.
    fn finish(mut self) -> Done {
        self.kind = Kind::Over;
        let f = self.sub.finish();
        (self.log, f.digest, f.ticks, self.steps, f.counters)
    }
}

type Offers = (Arc<Vec<u8>>, Arc<Vec<(usize, &'static str)>>, usize);

fn stream(sub: &Sim, from: Origin) -> Offers {
    let mut o = Opts::standard();
    o.scale = 0;
    o.max_frames = 4;
    o.big = false;
    o.unknown_blocks = sub.w(3) == 2;
    let m = gen_model(sub, &o);
    let b = m.build();
    let at = pick_offset(sub, Lane::Fault, &b, b.bytes.len());
    if sub.w(4) == 3 {
        let mut bytes = (*b.bytes).clone();
        mutate(sub, &mut bytes, &b.frames, 1 + sub.w(4));
        return (Arc::new(bytes), b.bounds.clone(), at);
    }
    if from.twist > 0 {
        let mut bytes = (*b.bytes).clone();
        // within one palette, or within the data of one frame, or anywhere behind the header
        let n = b.frames.len() as u64;
        match from.twist % 4 {
            0 | 1 if m.global.is_some() => from.exchange(&mut bytes, 13, b.header_end),
            2 if n > 0 => {
                let f = &b.frames[(from.twist / 4 % n) as usize];
                from.exchange(&mut bytes, f.start + 10, f.mcs_off);
            }
            3 if n > 0 => {
                let f = &b.frames[(from.twist / 4 % n) as usize];
                from.exchange(&mut bytes, f.mcs_off + 2, f.end);
            }
            _ => from.exchange(&mut bytes, 6, usize::MAX),
        }
        return (Arc::new(bytes), b.bounds.clone(), at);
    }
    (b.bytes.clone(), b.bounds.clone(), at)
}

type Done = (Vec<(&'static str, u64, u64)>, u64, u64, u32, Vec<(&'static str, u64)>);

fn c20(sim: &Sim) -> Check {
    // sometimes many of them, all of one kind and all threads
    let many = sim.chance(Lane::Work, 1, 80);
    let herd = many && sim.w(2) == 1;
    let n = if many {
        sim.probe("scale: dozens of jobs");
        [9, 17, 33, 70][sim.w(4) as usize]
    } else {
        2 + sim.w(3) as usize
    };
    let mut seeds: Vec<Origin> = Vec::new();
    for i in 0..n {
        let r = if i > 0 { sim.w(3) } else { 0 };
        seeds.push(if i > 0 && (r == 2 || herd) {
            sim.probe("jobs: relatives");
            Origin { twist: sim.w(1 << 20), ..seeds[i - 1] }
        } else {
            Origin { seed: mix(sim.w(1 << 40)), twist: 0 }
        });
    }
    let base_entropy = sim.w(1 << 20);
    // each one alone
    let mut alone: Vec<Done> = Vec::new();
    for &seed in &seeds {
        let job: Box<dyn FnOnce(Baton) -> Done + Send> = Box::new(move |_| {
            entropy::seed(base_entropy);
            let mut j = Job::new(seed, None);
            while j.step() {}
            j.finish()
        });
        let (mut r, _) = run_threads(sim, vec![job]);
        match r.pop() {
            Some(Ok(d)) => alone.push(d),
            Some(Err(e)) => return violation("panic", format!("alone, at {e}")),
            None => {}
        }
    }
    for d in &alone {
        sim.ev("alone", d.0.len() as u64, d.1);
    }
    let mode = if herd { 1 } else { sim.s(4) };
    let name = ["mode: call by call", "mode: threads", "mode: nested in a read or write", "mode: moving between threads"][mode as usize];
    sim.probe(name);
    sim.note(|| name.to_string());
    let mut switches = 0;
    let together: Result<Vec<Done>, String> = match mode {
        0 => {
            let mut jobs: Vec<(Job, bool)> = seeds.iter().map(|&s| (Job::new(s, None), true)).collect();
            loop {
                let live: Vec<usize> = (0..n).filter(|&i| jobs[i].1).collect();
                if live.is_empty() {
                    break;
                }
                let i = live[sim.s(live.len() as u64) as usize];
                let run = 1 + sim.s(3);
                switches += 1;
                for _ in 0..run {
                    if !jobs[i].0.step() {
                        jobs[i].1 = false;
                        break;
                    }
                }
            }
            Ok(jobs.into_iter().map(|j| j.0.finish()).collect())
        }
        1 => {
            let fine = sim.s(2) == 1;
            let jobs: Vec<Box<dyn FnOnce(Baton) -> Done + Send>> = seeds
                .iter()
                .map(|&seed| -> Box<dyn FnOnce(Baton) -> Done + Send> {
                    Box::new(move |b| {
                        let mut j = Job::new(seed, Some(b.clone()));
                        loop {
                            b.yield_now();
                            let more = if fine { alloc::yielding(&b, || j.step()) } else { j.step() };
                            if !more {
                                break;
                            }
                        }
                        j.finish()
                    })
                })
                .collect();
            let (r, s) = run_threads(sim, jobs);
            switches = s;
            r.into_iter().collect()
        }
        2 => {
            let others: Arc<Mutex<Vec<(Job, bool)>>> = Arc::new(Mutex::new(seeds[1..].iter().map(|&s| (Job::new(s, None), true)).collect()));
            let count = Arc::new(Mutex::new(0u64));
            let mut first = Job::new(seeds[0], None);
            let nested: Box<dyn FnMut(usize) + Send> = {
                let (others, sim, count) = (others.clone(), sim.clone(), count.clone());
                Box::new(move |_| {
                    let Ok(mut o) = others.try_lock() else { return };
                    let i = sim.s(o.len() as u64) as usize;
                    for _ in 0..sim.s(3) {
                        if o[i].1 {
                            o[i].1 = o[i].0.step();
                            if let Ok(mut c) = count.lock() {
                                *c += 1;
                            }
                        }
                    }
                })
            };
            match &mut first.kind {
                Kind::Closed(Some(r), _) => r.on_read = Some(nested),
                Kind::Enc(Some(e), ..) => e.get_mut().on_write = Some(nested),
                _ => {}
            }
            while first.step() {}
            let mut v = vec![first.finish()];
            let rest = std::mem::take(&mut *others.lock().unwrap_or_else(|e| e.into_inner()));
            for (mut j, more) in rest {
                while more && j.step() {}
                v.push(j.finish());
            }
            switches = count.lock().map_or(0, |c| *c);
            Ok(v)
        }
        _ => {
            // a pool of jobs; each thread takes one, does a step, puts it back
            let pool: Arc<Mutex<Vec<Option<Job>>>> = Arc::new(Mutex::new(seeds.iter().map(|&s| Some(Job::new(s, None))).collect()));
            let over: Arc<Mutex<Vec<(usize, Job)>>> = Arc::default();
            let threads = 2 + sim.s(2);
            let jobs: Vec<Box<dyn FnOnce(Baton) + Send>> = (0..threads)
                .map(|_| -> Box<dyn FnOnce(Baton) + Send> {
                    let (pool, over, sim) = (pool.clone(), over.clone(), sim.clone());
                    Box::new(move |b| loop {
                        b.yield_now();
                        let mut taken = {
                            let mut p = pool.lock().unwrap_or_else(|e| e.into_inner());
                            let live: Vec<usize> = (0..p.len()).filter(|&i| p[i].is_some()).collect();
                            if live.is_empty() {
                                break;
                            }
                            let i = live[sim.s(live.len() as u64) as usize];
                            (i, p[i].take())
                        };
                        let Some(j) = taken.1.as_mut() else { break };
                        let more = j.step();
                        if more {
                            pool.lock().unwrap_or_else(|e| e.into_inner())[taken.0] = taken.1;
                        } else if let Some(j) = taken.1 {
                            over.lock().unwrap_or_else(|e| e.into_inner()).push((taken.0, j));
                        }
                    })
                })
                .collect();
            let (r, s) = run_threads(sim, jobs);
            switches = s;
            match r.into_iter().collect::<Result<Vec<()>, String>>() {
                Err(e) => Err(e),
                Ok(_) => {
                    let mut v = std::mem::take(&mut *over.lock().unwrap_or_else(|e| e.into_inner()));
                    v.sort_by_key(|e| e.0);
                    Ok(v.into_iter().map(|e| e.1.finish()).collect())
                }
            }
        }
    };
    sim.count("delivery: context switches", switches);
    let together = match together {
        Ok(t) => t,
        Err(e) => return violation("panic", format!("together, at {e}")),
    };
    ensure!(together.len() == n, "lost", "{} of {n} jobs finished", together.len());
    if alone.iter().filter(|d| d.3 >= 3).count() >= 2 && switches >= 3 {
        sim.nontrivial();
    }
    for (i, (a, t)) in alone.iter().zip(&together).enumerate() {
        for (name, k) in &t.4 {
            sim.count(name, *k);
        }
        let at = a.0.iter().zip(&t.0).position(|(x, y)| x != y);
        ensure!(
            a.0 == t.0,
            "influenced",
            "job {i} ({name}): {} results alone, {} together, first difference at {at:?}: {:?} vs {:?}",
            a.0.len(),
            t.0.len(),
            at.map(|k| a.0[k]),
            at.map(|k| t.0[k])
        );
        ensure!(a.1 == t.1 && a.2 == t.2, "influenced", "job {i} ({name}): same results, but different I/O calls ({} vs {} events)", a.2, t.2);
    }
    Ok(())
}

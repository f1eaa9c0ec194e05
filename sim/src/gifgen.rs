//! Generator of GIF streams with known meaning, and an independent serialiser.
//!
//! Everything a stream should decode to is known from the model it was written from; the code
//! under test is never consulted.

use crate::lzw::{self, LzwStyle};
use crate::rng::Rng;
use crate::sim::{Lane, Sim};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Gce {
    pub disposal: u8,
    pub user_input: bool,
    pub transparent: Option<u8>,
    /// value of the transparency byte when the flag is off
    pub junk_index: u8,
    pub delay: u16,
    pub reserved: u8,
}

#[derive(Clone, Debug)]
pub struct Image {
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub interlaced: bool,
    pub sort_flag: bool,
    pub local: Option<Vec<u8>>,
    /// logical row order
    pub pixels: Vec<u8>,
    pub lzw: LzwStyle,
    /// number of pixels beyond w*h also present in the compressed data
    pub excess: u16,
    /// number of pixels missing at the end (malformed)
    pub missing: u32,
    /// sub-block sizes: 0 = all 255, else seed of random partition with max size
    pub partition_max: u8,
    pub partition_seed: u64,
    /// an invalid code is put after this many pixels (malformed)
    pub bad_code_after: Option<usize>,
    pub raw_mcs: Option<u8>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Gce(Gce),
    Ext { label: u8, blocks: Vec<Vec<u8>> },
    /// the loop count and the sub-blocks behind it (such as a buffer size)
    Netscape { count: u16, more: Vec<Vec<u8>> },
    Unknown { label: u8, blocks: Vec<Vec<u8>> },
    Image(Image),
}

#[derive(Clone, Debug)]
pub struct Model {
    pub v89: bool,
    pub w: u16,
    pub h: u16,
    pub global: Option<Vec<u8>>,
    pub bg: u8,
    pub aspect: u8,
    pub flags: u8,
    pub items: Vec<Item>,
    pub trailer: bool,
    pub tail: Vec<u8>,
}

/// What a frame must decode to.
#[derive(Clone, Debug)]
pub struct ExpFrame {
    pub gce: Option<Gce>,
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub interlaced: bool,
    pub local: Option<Vec<u8>>,
    /// logical order
    pub pixels: Vec<u8>,
    /// order of the rows in the stream
    pub raster: Vec<u8>,
    /// offset of the image separator
    pub start: usize,
    /// offset of the byte giving the minimum code size
    pub mcs_off: usize,
    /// offset just after the last byte of compressed data
    /// offset just after the terminating empty sub-block
    pub end: usize,
    pub mcs: u8,
    /// concatenated compressed data
    pub lzw: Vec<u8>,
    pub end_code: bool,
    /// the compressed data hold more pixels than the frame has
    pub excess: bool,
    pub sub_blocks: usize,
    pub table_full: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExpExt {
    pub label: u8,
    pub blocks: Vec<Vec<u8>>,
    pub start: usize,
    pub end: usize,
    pub unknown_block: bool,
}

#[derive(Clone)]
pub struct Built {
    pub bytes: Arc<Vec<u8>>,
    pub bounds: Arc<Vec<(usize, &'static str)>>,
    pub frames: Vec<ExpFrame>,
    pub exts: Vec<ExpExt>,
    /// offset of the trailer byte (or of the end when there is none)
    pub trailer: usize,
    /// offset just after the header (screen descriptor and global palette)
    pub header_end: usize,
    /// offset of the first byte that is neither header nor extension
    pub first_nonext: usize,
    pub repeat_before_first: Option<u16>,
}

pub fn interlace_order(h: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(h);
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut r = start;
        while r < h {
            v.push(r);
            r += step;
        }
    }
    v
}

/// Reorders logical rows into interlaced storage order.
pub fn interlace(px: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(px.len());
    for r in interlace_order(h) {
        out.extend_from_slice(&px[r * w..(r + 1) * w]);
    }
    out
}

/// RGBA expansion by the specification: palette colour, alpha 0 for the transparent index.
pub fn to_rgba(px: &[u8], palette: &[u8], transparent: Option<u8>) -> Vec<u8> {
    let mut out = Vec::with_capacity(px.len() * 4);
    for &p in px {
        let o = p as usize * 3;
        match palette.get(o..o + 3) {
            Some(c) => out.extend_from_slice(&[c[0], c[1], c[2], if transparent == Some(p) { 0 } else { 255 }]),
            None => out.extend_from_slice(&[0, 0, 0, 0]),
        }
    }
    out
}

fn table_flag(pal: &[u8]) -> u8 {
    let n = pal.len() / 3;
    (n.trailing_zeros() - 1) as u8
}

fn put_blocks(out: &mut Vec<u8>, bounds: &mut Vec<(usize, &'static str)>, blocks: &[Vec<u8>]) {
    for b in blocks {
        bounds.push((out.len(), "split: before extension sub-block"));
        out.push(b.len() as u8);
        bounds.push((out.len(), "split: inside extension data"));
        out.extend_from_slice(b);
    }
    bounds.push((out.len(), "split: before block terminator"));
    out.push(0);
}

pub fn build(m: &Model) -> Built {
    let mut o: Vec<u8> = Vec::new();
    let mut bd: Vec<(usize, &'static str)> = Vec::new();
    let mut frames = Vec::new();
    let mut exts = Vec::new();
    bd.push((0, "split: inside signature"));
    o.extend_from_slice(if m.v89 { b"GIF89a" } else { b"GIF87a" });
    bd.push((o.len(), "split: inside screen descriptor"));
    o.extend_from_slice(&m.w.to_le_bytes());
    o.extend_from_slice(&m.h.to_le_bytes());
    let mut fl = m.flags & 0x78;
    if let Some(g) = &m.global {
        fl |= 0x80 | table_flag(g);
    } else {
        fl |= m.flags & 7;
    }
    o.push(fl);
    o.push(m.bg);
    o.push(m.aspect);
    if let Some(g) = &m.global {
        bd.push((o.len(), "split: inside global palette"));
        o.extend_from_slice(g);
    }
    let header_end = o.len();
    let mut first_nonext = None;
    let mut gce: Option<Gce> = None;
    let mut repeat = None;
    for it in &m.items {
        match it {
            Item::Gce(g) => {
                let start = o.len();
                bd.push((o.len(), "split: inside graphic control"));
                let mut f = (g.disposal & 7) << 2 | (g.reserved & 7) << 5;
                f |= u8::from(g.user_input) << 1;
                f |= u8::from(g.transparent.is_some());
                let d = g.delay.to_le_bytes();
                let payload = vec![f, d[0], d[1], g.transparent.unwrap_or(g.junk_index)];
                o.extend_from_slice(&[0x21, 0xF9, 4]);
                o.extend_from_slice(&payload);
                bd.push((o.len(), "split: before block terminator"));
                o.push(0);
                exts.push(ExpExt { label: 0xF9, blocks: vec![payload], start, end: o.len(), unknown_block: false });
                gce = Some(g.clone());
            }
            Item::Ext { label, blocks } => {
                let start = o.len();
                bd.push((o.len(), "split: inside extension header"));
                o.extend_from_slice(&[0x21, *label]);
                put_blocks(&mut o, &mut bd, blocks);
                exts.push(ExpExt { label: *label, blocks: blocks.clone(), start, end: o.len(), unknown_block: false });
            }
            Item::Netscape { count, more } => {
                let start = o.len();
                bd.push((o.len(), "split: inside extension header"));
                o.extend_from_slice(&[0x21, 0xFF]);
                let c = count.to_le_bytes();
                let mut blocks = vec![b"NETSCAPE2.0".to_vec(), vec![1, c[0], c[1]]];
                blocks.extend_from_slice(more);
                put_blocks(&mut o, &mut bd, &blocks);
                if frames.is_empty() {
                    repeat = Some(*count);
                }
                exts.push(ExpExt { label: 0xFF, blocks, start, end: o.len(), unknown_block: false });
            }
            Item::Unknown { label, blocks } => {
                let start = o.len();
                bd.push((o.len(), "split: inside unknown block"));
                o.push(*label);
                put_blocks(&mut o, &mut bd, blocks);
                exts.push(ExpExt { label: *label, blocks: blocks.clone(), start, end: o.len(), unknown_block: true });
            }
            Item::Image(im) => {
                let start = o.len();
                first_nonext.get_or_insert(start);
                bd.push((o.len(), "split: inside image descriptor"));
                o.push(0x2C);
                for v in [im.left, im.top, im.w, im.h] {
                    o.extend_from_slice(&v.to_le_bytes());
                }
                let mut f = u8::from(im.interlaced) << 6 | u8::from(im.sort_flag) << 5;
                if im.sort_flag {
                    // reserved bits mean nothing, nor does the size of a table that isn't there
                    f |= (im.partition_seed & 3) as u8 * 8;
                    if im.local.is_none() {
                        f |= (im.partition_seed >> 2 & 7) as u8;
                    }
                }
                if let Some(l) = &im.local {
                    f |= 0x80 | table_flag(l);
                }
                o.push(f);
                if let Some(l) = &im.local {
                    bd.push((o.len(), "split: inside local palette"));
                    o.extend_from_slice(l);
                }
                let mcs_off = o.len();
                bd.push((o.len(), "split: before image data"));
                o.push(im.raw_mcs.unwrap_or(im.lzw.min_code_size));
                let raster = if im.interlaced { interlace(&im.pixels, im.w as usize, im.h as usize) } else { im.pixels.clone() };
                let mut coded = raster.clone();
                let mut r = Rng::new(im.partition_seed ^ 0xE1);
                for _ in 0..im.excess {
                    coded.push(r.below(1 << im.lzw.min_code_size) as u8);
                }
                coded.truncate(coded.len().saturating_sub(im.missing as usize));
                let enc;
                let lzw_data;
                if let Some(k) = im.bad_code_after {
                    // k good pixels, then a code that cannot exist yet
                    let mut st = im.lzw;
                    st.end_code = false;
                    st.clears = 0;
                    st.matching = 1;
                    st.initial_clear = true;
                    coded.truncate(k);
                    enc = lzw::encode(&coded, &st);
                    let mut b = lzw::Bits::new();
                    // re-emit: literals have a known width schedule
                    let mcs = u32::from(st.min_code_size);
                    let mut width = mcs + 1;
                    let mut next = (1usize << mcs) + 2;
                    b.put(1 << mcs, width);
                    for (i, &p) in coded.iter().enumerate() {
                        b.put(u16::from(p), width);
                        if i > 0 && next < 4096 {
                            next += 1;
                            if next == 1 << width && width < 12 {
                                width += 1;
                            }
                        }
                    }
                    // the largest code of this width; for an invalid one it must exceed `next`
                    let bad = (1usize << width) - 1;
                    if bad > next {
                        b.put(bad as u16, width);
                    } else {
                        // no invalid code is expressible here: clear first, then refer to a code
                        // right after the clear
                        b.put(1 << mcs, width);
                        b.put(((1usize << (mcs + 1)) - 1) as u16, mcs + 1);
                    }
                    let mut d = b.finish();
                    for _ in 0..24 {
                        d.push(r.next() as u8);
                    }
                    lzw_data = d;
                } else {
                    enc = lzw::encode(&coded, &im.lzw);
                    lzw_data = enc.data.clone();
                }
                let mut rest = &lzw_data[..];
                let mut pr = Rng::new(im.partition_seed);
                let mut nb = 0;
                while !rest.is_empty() {
                    let max = if im.partition_max == 0 { 255 } else { 1 + pr.below(u64::from(im.partition_max)) as usize };
                    let n = max.min(rest.len());
                    bd.push((o.len(), "split: between image sub-blocks"));
                    o.push(n as u8);
                    bd.push((o.len(), "split: inside image data"));
                    o.extend_from_slice(&rest[..n]);
                    rest = &rest[n..];
                    nb += 1;
                }
                bd.push((o.len(), "split: before block terminator"));
                o.push(0);
                frames.push(ExpFrame {
                    gce: gce.take(),
                    left: im.left,
                    top: im.top,
                    w: im.w,
                    h: im.h,
                    interlaced: im.interlaced,
                    local: im.local.clone(),
                    pixels: im.pixels.clone(),
                    raster,
                    start,
                    mcs_off,
                    end: o.len(),
                    mcs: im.lzw.min_code_size,
                    lzw: lzw_data,
                    end_code: im.lzw.end_code,
                    excess: im.excess > 0,
                    sub_blocks: nb,
                    table_full: enc.table_full,
                });
            }
        }
    }
    let trailer = o.len();
    if m.trailer {
        bd.push((o.len(), "split: before trailer"));
        o.push(0x3B);
    }
    if !m.tail.is_empty() {
        bd.push((o.len(), "split: inside bytes after the trailer"));
        o.extend_from_slice(&m.tail);
    }
    Built {
        bytes: Arc::new(o),
        bounds: Arc::new(bd),
        frames,
        exts,
        trailer,
        header_end,
        first_nonext: first_nonext.unwrap_or(trailer),
        repeat_before_first: repeat,
    }
}

/// What the generated stream may contain.
#[derive(Clone, Copy)]
pub struct Opts {
    pub min_frames: u64,
    pub max_frames: u64,
    /// dimension class: upper bound for ordinary frames
    pub dim: u64,
    /// allow a large frame now and then
    pub big: bool,
    pub exts: bool,
    /// frames may have no pixels
    pub zero_size: bool,
    /// all palette indices are within the palette
    pub in_palette: bool,
    pub missing_end_code: bool,
    pub excess: bool,
    pub tail: bool,
    /// exotic LZW (extra clears, no initial clear, junk after the end code)
    pub exotic: bool,
    /// every frame lies inside the screen
    pub inside: bool,
    pub unknown_blocks: bool,
    /// extension sub-block payload: max number of sub-blocks and max size
    pub ext_blocks: u64,
    pub ext_size: u64,
    /// minimum code sizes 9..=11 too
    pub odd_mcs: bool,
    /// once in so many streams something occurs in very large numbers (0: never)
    pub scale: u64,
}

impl Opts {
    pub fn standard() -> Self {
        Opts {
            min_frames: 1,
            max_frames: 4,
            dim: 12,
            big: true,
            exts: true,
            zero_size: true,
            in_palette: true,
            missing_end_code: true,
            excess: false,
            tail: true,
            exotic: true,
            inside: false,
            unknown_blocks: false,
            ext_blocks: 4,
            ext_size: 40,
            odd_mcs: false,
            scale: 700,
        }
    }
}

pub fn gen_palette(sim: &Sim, bits: u64) -> Vec<u8> {
    let n = 2usize << bits;
    let seed = sim.w(1 << 16);
    let mut r = Rng::new(seed ^ 0x9a1e);
    let mut p: Vec<u8> = (0..n * 3).map(|_| r.next() as u8).collect();
    // sometimes of few colours or shades
    match seed % 16 {
        0 => p.fill(0),
        1 => p.fill(0xFF),
        2 => {
            let v = p[0];
            p.fill(v);
        }
        3 => {
            let (a, b) = p.split_at_mut(n / 2 * 3);
            b.copy_from_slice(a);
        }
        4 => p.chunks_mut(3).enumerate().for_each(|(i, c)| c.fill(i as u8)),
        5 => {
            let first = [p[0], p[1], p[2]];
            p.chunks_mut(3).for_each(|c| c.copy_from_slice(&first));
        }
        _ => {}
    }
    p
}

fn pick_pal_bits(sim: &Sim) -> u64 {
    [1, 0, 2, 3, 7, 4, 5, 6][sim.w(8) as usize]
}

pub fn gen_blocks(sim: &Sim, max_blocks: u64, max_size: u64) -> Vec<Vec<u8>> {
    let n = sim.w(max_blocks + 1);
    (0..n)
        .map(|_| {
            let len = match sim.weighted(Lane::Work, &[8, 2, 1, 1]) {
                0 => sim.w(max_size.max(2)) + 1,
                1 => 1,
                2 => 255.min(max_size * 8),
                _ => [4, 11, 3, 12, 13][sim.w(5) as usize],
            }
            .clamp(1, 255);
            let seed = sim.w(1 << 16);
            let mut r = Rng::new(seed ^ 0xb10c);
            let style = seed % 4;
            (0..len)
                .map(|i| match style {
                    0 => 0,
                    1 => [0x21, 0x2C, 0x3B, 0x00, 0xF9][(i % 5) as usize],
                    _ => r.next() as u8,
                })
                .collect()
        })
        .collect()
}

/// A 16-bit number: near a power of two, or any.
pub fn num16(sim: &Sim) -> u16 {
    match sim.w(3) {
        0 => [1, 255, 256, 65535][sim.w(4) as usize],
        1 => {
            let bit = 1u32 << (7 + sim.w(9));
            (bit - 1 + sim.w(3) as u32) as u16
        }
        _ => sim.w(1 << 16) as u16,
    }
}

pub fn gen_gce(sim: &Sim) -> Gce {
    let t = sim.w(5);
    Gce {
        disposal: sim.w(if t == 4 { 8 } else { 4 }) as u8,
        user_input: sim.chance(Lane::Work, 1, 4),
        transparent: if sim.chance(Lane::Work, 1, 2) { Some(sim.w(256) as u8 >> sim.w(8)) } else { None },
        junk_index: sim.w(256) as u8,
        delay: if sim.w(4) == 3 { num16(sim) } else { [0, 1, 10, 255, 256, 0x1234, 65535, 500][sim.w(8) as usize] },
        reserved: sim.w(8) as u8,
    }
}

/// Fills a pixel buffer with indices < `colors`.
pub fn gen_pixels(sim: &Sim, n: usize, colors: u64) -> Vec<u8> {
    let style = sim.weighted(Lane::Work, &[2, 4, 2, 2, 2, 1]);
    let seed = sim.w(1 << 20);
    let odd_one = if seed % 3 == 0 { n.saturating_sub(1) } else { (seed as usize).wrapping_mul(7919) % n.max(1) };
    let mut r = Rng::new(seed ^ 0x51de);
    let k = seed;
    let mut cur = 0;
    let mut left = 0;
    let ramp = 1 + r.below(7);
    (0..n)
        .map(|i| {
            (match style {
                0 => k % colors,
                1 => r.below(colors),
                2 => {
                    if left == 0 {
                        cur = r.below(colors);
                        left = 1 + r.below(20);
                    }
                    left -= 1;
                    cur
                }
                3 => (i as u64 / ramp) % colors,
                // all the same but one
                5 => {
                    if i == odd_one {
                        colors - 1
                    } else {
                        0
                    }
                }
                _ => {
                    if r.below(9) == 0 {
                        r.below(colors)
                    } else {
                        (i as u64 % 3) % colors
                    }
                }
            }) as u8
        })
        .collect()
}

/// Sizes of the large pictures one meets.
pub const HUGE: [(u16, u16); 6] = [(512, 512), (640, 480), (1000, 700), (1024, 1024), (2048, 300), (300, 2200)];

pub fn gen_dims(sim: &Sim, o: &Opts) -> (u16, u16) {
    let big = if o.big { 1 } else { 0 };
    match sim.weighted(Lane::Work, &[200, 60, 20 * big, 10 * big, if o.zero_size { 20 } else { 0 }, big, 3 * big]) {
        0 => (sim.w(o.dim) as u16 + 1, sim.w(o.dim) as u16 + 1),
        1 => {
            let long = sim.w(o.dim * 8) as u16 + 1;
            if sim.w(2) == 0 {
                (long, 1 + sim.w(3) as u16)
            } else {
                (1 + sim.w(3) as u16, long)
            }
        }
        2 => (20 + sim.w(60) as u16, 20 + sim.w(60) as u16),
        3 => (80 + sim.w(60) as u16, 80 + sim.w(60) as u16),
        // sizes between the small and the extreme ones
        6 => {
            let (long, short) = match sim.w(12) {
                // more pixels than 16 bits can count
                11 => [(300, 230), (257, 256), (256, 256), (4100, 16), (22000, 3)][sim.w(5) as usize],
                _ => (141 + sim.w(2000) as u16, 1 + sim.w(9) as u16),
            };
            if sim.w(2) == 1 {
                (short, long)
            } else {
                (long, short)
            }
        }
        // lines whose length in bytes or pixels passes 16 bits
        5 if sim.w(12) == 11 => {
            sim.probe("scale: hundreds of thousands of pixels");
            HUGE[sim.w(HUGE.len() as u64) as usize]
        }
        5 => {
            let long = [16384, 21845, 65535, 32768][sim.w(4) as usize];
            if sim.w(3) == 2 {
                (1, long)
            } else {
                (long, 1)
            }
        }
        _ => {
            let v = sim.w(6) as u16;
            match sim.w(3) {
                0 => (0, v),
                1 => (v, 0),
                _ => (0, 0),
            }
        }
    }
}

pub fn gen_image(sim: &Sim, o: &Opts, screen: (u16, u16), have_global: Option<usize>) -> Image {
    let (mut w, mut h) = gen_dims(sim, o);
    let (mut left, mut top) = (0, 0);
    if o.inside {
        w = w.min(screen.0);
        h = h.min(screen.1);
        left = sim.w(u64::from(screen.0 - w) + 1) as u16;
        top = sim.w(u64::from(screen.1 - h) + 1) as u16;
    } else {
        match sim.w(4) {
            0 => {}
            1 => {
                left = sim.w(9) as u16;
                top = sim.w(9) as u16;
            }
            2 => left = num16(sim),
            _ => top = num16(sim),
        }
    }
    let local = if have_global.is_none() || sim.chance(Lane::Work, 1, 3) {
        let bits = pick_pal_bits(sim);
        Some(gen_palette(sim, bits))
    } else {
        None
    };
    let ncol = local.as_ref().map_or(have_global.unwrap_or(2), |l| l.len() / 3) as u64;
    // usual minimum code size is that of the palette, but any that covers the indices is legal
    let need = (64 - (ncol - 1).leading_zeros()).max(2) as u8;
    let mut mcs = if sim.chance(Lane::Work, 1, 5) { 2 + sim.w(7) as u8 } else { need };
    if o.odd_mcs && sim.chance(Lane::Work, 1, 8) {
        mcs = [9, 10, 11][sim.w(3) as usize];
    }
    let colors = (if o.in_palette { ncol } else { 256 }).min(1 << mcs.min(8));
    let n = w as usize * h as usize;
    let pixels = gen_pixels(sim, n, colors.max(1));
    let exotic = o.exotic && sim.chance(Lane::Work, 1, 2);
    let lzw = LzwStyle {
        min_code_size: mcs,
        matching: if exotic { sim.w(3) as u8 } else { 0 },
        initial_clear: !(exotic && sim.chance(Lane::Work, 1, 6)),
        clears: if exotic { [0, 1, 2][sim.w(3) as usize] } else { 0 },
        clear_on_full: !(exotic && sim.chance(Lane::Work, 1, 2)),
        end_code: !(o.missing_end_code && sim.chance(Lane::Work, 1, 6)),
        junk: if exotic && sim.chance(Lane::Work, 1, 5) { sim.w(20) as u8 } else { 0 },
        seed: if exotic { sim.w(1 << 16) } else { 0 },
    };
    Image {
        left,
        top,
        w,
        h,
        interlaced: sim.chance(Lane::Work, 1, 3),
        sort_flag: sim.chance(Lane::Work, 1, 8),
        local,
        pixels,
        lzw,
        excess: if o.excess && sim.chance(Lane::Work, 1, 5) { sim.w(40) as u16 } else { 0 },
        missing: 0,
        partition_max: if sim.chance(Lane::Work, 1, 3) { [1, 2, 3, 5, 8, 40, 254][sim.w(7) as usize] } else { 0 },
        partition_seed: sim.w(1 << 16),
        bad_code_after: None,
        raw_mcs: None,
    }
}

/// Exchanges two bytes, or changes one when they are the same.
pub fn exchange(sim: &Sim, data: &mut [u8], max: u8) {
    if data.is_empty() {
        return;
    }
    let n = data.len() as u64;
    let a = sim.w(n) as usize;
    let b = if sim.w(2) == 1 { (a + 1) % data.len() } else { sim.w(n) as usize };
    if data[a] == data[b] {
        data[a] = if data[a] == max { 0 } else { data[a] + 1 };
    } else {
        data.swap(a, b);
    }
}

/// The same image with one thing different: nothing else in a stream is so easily mistaken for it.
fn sibling(sim: &Sim, o: &Opts, of: &Image, screen: (u16, u16), global: Option<&[u8]>) -> Image {
    sim.probe("frame much like the one before");
    let mut im = of.clone();
    match sim.w(9) {
        0 => {}
        1 => {
            let mut pal = im.local.take().or_else(|| global.map(<[u8]>::to_vec)).unwrap_or_default();
            exchange(sim, &mut pal, 255);
            im.local = Some(pal);
        }
        2 => {
            let fits = |at: u16, size: u16, all: u16| u32::from(at) + u32::from(size) <= u32::from(all);
            if !o.inside || (fits(im.left, im.h, screen.0) && fits(im.top, im.w, screen.1)) {
                std::mem::swap(&mut im.w, &mut im.h);
            }
        }
        3 => im.interlaced = !im.interlaced,
        4 => {
            let top = im.pixels.iter().copied().max().unwrap_or(0);
            exchange(sim, &mut im.pixels, top);
        }
        5 => {
            if !o.inside {
                std::mem::swap(&mut im.left, &mut im.top);
            }
        }
        6 => im.lzw.min_code_size = if im.lzw.min_code_size < 8 { im.lzw.min_code_size + 1 } else { im.lzw.min_code_size },
        7 => im.lzw.matching = (im.lzw.matching + 1) % 3,
        // (with an own palette or without one)
        _ => match (&im.local, global) {
            (None, Some(g)) => im.local = Some(g.to_vec()),
            (Some(l), Some(g)) if g.len() >= l.len() => im.local = None,
            _ => {}
        },
    }
    im
}

/// Something that is almost the looping extension.
pub fn lookalike(sim: &Sim) -> Item {
    let mut name = b"NETSCAPE2.0".to_vec();
    let mut data = vec![vec![1, 7, 0]];
    let mut label = 0xFF;
    match sim.w(8) {
        0 => data = vec![vec![[2, 0, 3, 4, 5, 0x11, 0x81, 255][sim.w(8) as usize], 7, 0]],
        1 => data = vec![],
        2 => data = vec![vec![1]],
        3 => label = 0xFE,
        4 => name = b"ANIMEXTS1.0".to_vec(),
        5 => name = b"netscape2.0".to_vec(),
        6 => {
            name.pop();
        }
        _ => {
            let i = sim.w(11) as usize;
            name[i] ^= 1 << sim.w(8);
        }
    }
    // (decoders may see the sub-blocks joined)
    if sim.w(4) == 3 && data.first().is_some_and(|d| d.len() == 3) {
        data.push(vec![1, 9, 0]);
    }
    let mut blocks = vec![name];
    blocks.extend(data);
    Item::Ext { label, blocks }
}

pub const EXT_LABELS: [u8; 3] = [0xFE, 0xFF, 0x01];

pub fn gen_ext(sim: &Sim, o: &Opts, allow_text: bool) -> Item {
    let label = EXT_LABELS[sim.w(if allow_text { 3 } else { 2 }) as usize];
    let mut blocks = gen_blocks(sim, o.ext_blocks, o.ext_size);
    if label == 0xFF {
        // not the looping extension: that one is its own item
        if let Some(b) = blocks.first_mut() {
            if b.len() == 11 && b.starts_with(b"NETSCAPE") {
                b[0] = b'X';
            }
        }
        match sim.w(6) {
            1 | 3 => blocks.insert(0, b"XMP DataXMP".to_vec()),
            5 => return lookalike(sim),
            _ => {}
        }
    }
    Item::Ext { label, blocks }
}

/// Makes one thing about the stream enormous: more than 8 or 16 bits can count.
fn scale_up(sim: &Sim, o: &Opts, items: &mut Vec<Item>, tail: &mut Vec<u8>, screen: (u16, u16), have_global: Option<usize>) {
    let Some(at) = items.iter().position(|i| matches!(i, Item::Image(_))) else { return };
    // in front of the first image and its control block
    let front = if at > 0 && matches!(items[at - 1], Item::Gce(_)) { at - 1 } else { at };
    match sim.w(if o.exts { 5 } else { 2 }) {
        0 => {
            let n = [257, 300, 1025, 5000, if sim.chance(Lane::Work, 1, 8) { 65_537 } else { 2000 }][sim.w(5) as usize];
            let small = Opts { dim: 2, big: false, zero_size: false, exotic: false, excess: false, ..*o };
            let protos: Vec<Image> = (0..3).map(|_| gen_image(sim, &small, screen, have_global)).collect();
            for i in 0..n {
                if i % 3 != 1 {
                    items.push(Item::Gce(Gce { disposal: (i % 4) as u8, user_input: false, transparent: None, junk_index: 0, delay: i as u16, reserved: 0 }));
                }
                items.push(Item::Image(protos[i % 3].clone()));
            }
            sim.probe("scale: hundreds of frames and more");
        }
        1 if o.tail => {
            let n = [8192, 9000, 70_000][sim.w(3) as usize];
            let mut r = Rng::new(sim.w(1 << 16));
            *tail = (0..n).map(|_| r.next() as u8).collect();
            sim.probe("scale: many bytes after the trailer");
        }
        2 => {
            let n = [257, 1025, 3000][sim.w(3) as usize];
            let protos: Vec<Item> = (0..4).map(|_| gen_ext(sim, o, false)).collect();
            items.splice(front..front, (0..n).map(|i| protos[i % 4].clone()));
            sim.probe("scale: hundreds of extensions and more");
        }
        3 => {
            let n = [33, 129, 258, 400][sim.w(4) as usize];
            let mut r = Rng::new(sim.w(1 << 16));
            let size = [255, 254, 200][sim.w(3) as usize];
            let blocks = (0..n).map(|_| (0..size).map(|_| r.next() as u8).collect()).collect();
            items.insert(front, Item::Ext { label: EXT_LABELS[sim.w(2) as usize], blocks });
            sim.probe("scale: very long extension");
        }
        _ => {
            let n = [300, 1500, 5000][sim.w(3) as usize];
            let mut r = Rng::new(sim.w(1 << 16));
            let blocks = (0..n).map(|_| vec![r.next() as u8]).collect();
            items.insert(front, Item::Ext { label: EXT_LABELS[sim.w(2) as usize], blocks });
            sim.probe("scale: extension of very many sub-blocks");
        }
    }
}

pub fn gen_model(sim: &Sim, o: &Opts) -> Model {
    let (w, h) = match sim.w(4) {
        0 => (sim.w(o.dim) as u16 + 1, sim.w(o.dim) as u16 + 1),
        1 => (sim.w(300) as u16, sim.w(300) as u16),
        2 => (16, 16),
        _ => (num16(sim), num16(sim)),
    };
    let global = if sim.chance(Lane::Work, 3, 4) {
        let bits = pick_pal_bits(sim);
        Some(gen_palette(sim, bits))
    } else {
        None
    };
    let gcol = global.as_ref().map(|g| g.len() / 3);
    let mut items = Vec::new();
    let nframes = o.min_frames + sim.w(o.max_frames - o.min_frames + 1);
    let mut netscape = false;
    let side = |sim: &Sim, items: &mut Vec<Item>, netscape: &mut bool, first: bool, allow_text: bool| {
        if !o.exts {
            return;
        }
        let n = [0, 0, 1, 1, 2, 3][sim.w(6) as usize];
        for _ in 0..n {
            if o.unknown_blocks && sim.chance(Lane::Work, 1, 3) {
                items.push(gen_unknown(sim, o));
            } else if first && !*netscape && sim.chance(Lane::Work, 1, 3) {
                *netscape = true;
                let more = match sim.w(6) {
                    4 => vec![vec![2, 0, 0x10, sim.w(256) as u8, 0]],
                    5 => gen_blocks(sim, o.ext_blocks, o.ext_size),
                    _ => Vec::new(),
                };
                items.push(Item::Netscape { count: if sim.w(4) == 3 { num16(sim) } else { [0, 1, 2, 255, 256, 65535][sim.w(6) as usize] }, more });
            } else {
                items.push(gen_ext(sim, o, allow_text));
            }
        }
    };
    let mut last: Option<Image> = None;
    for i in 0..nframes {
        side(sim, &mut items, &mut netscape, i == 0, true);
        // a control block that belongs to a plain text extension, not to the frame
        let text = o.exts && sim.chance(Lane::Work, 1, 10);
        if text {
            items.push(Item::Gce(gen_gce(sim)));
            items.push(Item::Ext { label: 0x01, blocks: gen_blocks(sim, o.ext_blocks, o.ext_size) });
        }
        if text || sim.chance(Lane::Work, 2, 3) {
            items.push(Item::Gce(gen_gce(sim)));
            if sim.chance(Lane::Work, 1, 4) {
                side(sim, &mut items, &mut netscape, i == 0, false);
            }
        }
        let image = match &last {
            Some(l) if sim.chance(Lane::Work, 1, 7) => sibling(sim, o, l, (w, h), global.as_deref()),
            _ => gen_image(sim, o, (w, h), gcol),
        };
        last = Some(image.clone());
        items.push(Item::Image(image));
    }
    side(sim, &mut items, &mut netscape, nframes == 0, true);
    let tail = if o.tail && sim.chance(Lane::Work, 1, 3) {
        let n = [1, 2, 9, 40, 300][sim.w(5) as usize];
        let seed = sim.w(1 << 16);
        let mut r = Rng::new(seed);
        (0..n).map(|_| r.next() as u8).collect()
    } else {
        Vec::new()
    };
    let mut tail = tail;
    if o.scale > 0 && sim.chance(Lane::Work, 1, o.scale) {
        scale_up(sim, o, &mut items, &mut tail, (w, h), gcol);
    }
    Model {
        v89: !sim.chance(Lane::Work, 1, 6),
        w,
        h,
        global,
        bg: match sim.w(3) {
            0 => 0,
            1 => sim.w(4) as u8,
            _ => sim.w(256) as u8,
        },
        aspect: if sim.chance(Lane::Work, 1, 6) { sim.w(256) as u8 } else { 0 },
        flags: sim.w(256) as u8,
        items,
        trailer: true,
        tail,
    }
}

/// A block type that is none of the three known ones, framed in sub-blocks like an extension.
pub fn gen_unknown(sim: &Sim, o: &Opts) -> Item {
    let label = loop {
        let l = [0x40, 0x01, 0x7f, 0xff, 0x2b, 0x2d, 0x22, 0xF9, 0, 0][sim.w(10) as usize];
        if ![0x21, 0x2C, 0x3B].contains(&l) {
            break l;
        }
    };
    Item::Unknown { label, blocks: gen_blocks(sim, o.ext_blocks, o.ext_size) }
}

impl Model {
    pub fn build(&self) -> Built {
        build(self)
    }
}

impl ExpFrame {
    pub fn palette<'a>(&'a self, m: &'a Model) -> &'a [u8] {
        self.local.as_deref().or(m.global.as_deref()).unwrap_or(&[])
    }
    pub fn transparent(&self) -> Option<u8> {
        self.gce.as_ref().and_then(|g| g.transparent)
    }
    pub fn rgba(&self, m: &Model) -> Vec<u8> {
        to_rgba(&self.pixels, self.palette(m), self.transparent())
    }
}

pub fn describe(m: &Model) -> String {
    let mut s = format!(
        "GIF{} {}x{} global={} bg={} [",
        if m.v89 { "89a" } else { "87a" },
        m.w,
        m.h,
        m.global.as_ref().map_or(0, |g| g.len() / 3),
        m.bg
    );
    for it in &m.items {
        match it {
            Item::Gce(g) => s += &format!(" gce(disp={},delay={},t={:?})", g.disposal, g.delay, g.transparent),
            Item::Ext { label, blocks } => s += &format!(" ext({:#x},{:?})", label, blocks.iter().map(Vec::len).collect::<Vec<_>>()),
            Item::Netscape { count, more } => s += &format!(" loop({count},{:?})", more.iter().map(Vec::len).collect::<Vec<_>>()),
            Item::Unknown { label, blocks } => s += &format!(" unknown({:#x},{:?})", label, blocks.iter().map(Vec::len).collect::<Vec<_>>()),
            Item::Image(i) => {
                s += &format!(
                    " image({}x{}+{}+{}{}{} mcs={} lzw[match={} iclear={} clears={} full_clear={} end={} junk={}] part={})",
                    i.w,
                    i.h,
                    i.left,
                    i.top,
                    if i.interlaced { " interlaced" } else { "" },
                    i.local.as_ref().map_or(String::new(), |l| format!(" local={}", l.len() / 3)),
                    i.lzw.min_code_size,
                    i.lzw.matching,
                    i.lzw.initial_clear,
                    i.lzw.clears,
                    i.lzw.clear_on_full,
                    i.lzw.end_code,
                    i.lzw.junk,
                    i.partition_max
                )
            }
        }
    }
    s += &format!(" ] trailer={} tail={}", m.trailer, m.tail.len());
    s
}

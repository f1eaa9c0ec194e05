//! A strict, independent parser for what an encoder wrote: anything the format does not allow is
//! an error, and every byte must be accounted for.

use crate::lzw::{self, LzwEnd};

#[derive(Clone, Debug, PartialEq)]
pub struct PGce {
    pub disposal: u8,
    pub user_input: bool,
    pub transparent: Option<u8>,
    pub delay: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PImage {
    pub gce: Option<PGce>,
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub interlaced: bool,
    pub local: Option<Vec<u8>>,
    pub mcs: u8,
    pub lzw: Vec<u8>,
    /// decoded, in stored row order
    pub pixels: Vec<u8>,
    pub ended_by_code: bool,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PBlock {
    Image(PImage),
    Ext { label: u8, blocks: Vec<Vec<u8>> },
    /// looping extension
    Loop(u16),
    /// the control block of a plain text
    TextControl(PGce),
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub version: [u8; 6],
    pub w: u16,
    pub h: u16,
    pub global: Option<Vec<u8>>,
    pub blocks: Vec<PBlock>,
    /// offset just after the trailer
    pub end: usize,
}

struct Cur<'a> {
    d: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], String> {
        let r = self.d.get(self.p..self.p + n).ok_or_else(|| format!("data end inside {what} at offset {}", self.p))?;
        self.p += n;
        Ok(r)
    }
    fn u8(&mut self, what: &str) -> Result<u8, String> {
        Ok(self.take(1, what)?[0])
    }
    fn u16(&mut self, what: &str) -> Result<u16, String> {
        let b = self.take(2, what)?;
        Ok(u16::from_le_bytes([b[0], b[1]]))
    }
    fn blocks(&mut self) -> Result<Vec<Vec<u8>>, String> {
        let mut v = Vec::new();
        loop {
            let n = self.u8("sub-block length")?;
            if n == 0 {
                return Ok(v);
            }
            v.push(self.take(n as usize, "sub-block")?.to_vec());
        }
    }
}

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut c = Cur { d, p: 0 };
    let mut version = [0; 6];
    version.copy_from_slice(c.take(6, "signature")?);
    if &version != b"GIF89a" && &version != b"GIF87a" {
        return Err("bad signature".into());
    }
    let (w, h) = (c.u16("screen")?, c.u16("screen")?);
    let fl = c.u8("screen")?;
    let _bg = c.u8("screen")?;
    let _aspect = c.u8("screen")?;
    let global = if fl & 0x80 != 0 { Some(c.take(3 * (2 << (fl & 7)), "global palette")?.to_vec()) } else { None };
    let mut blocks = Vec::new();
    let mut gce: Option<PGce> = None;
    loop {
        let start = c.p;
        match c.u8("block type")? {
            0x3B => {
                if gce.is_some() {
                    return Err("control block without an image".into());
                }
                return Ok(Parsed { version, w, h, global, blocks, end: c.p });
            }
            0x21 => {
                let label = c.u8("extension label")?;
                let b = c.blocks()?;
                match label {
                    0xF9 => {
                        if b.len() != 1 || b[0].len() != 4 {
                            return Err("control block of the wrong shape".into());
                        }
                        if gce.is_some() {
                            return Err("two control blocks for one image".into());
                        }
                        let b = &b[0];
                        if b[0] & 0xE0 != 0 || (b[0] >> 2) & 7 > 3 {
                            return Err("reserved control bits set".into());
                        }
                        gce = Some(PGce {
                            disposal: (b[0] >> 2) & 7,
                            user_input: b[0] & 2 != 0,
                            transparent: (b[0] & 1 != 0).then_some(b[3]),
                            delay: u16::from_le_bytes([b[1], b[2]]),
                        });
                    }
                    0xFF if b.first().map(Vec::as_slice) == Some(b"NETSCAPE2.0") && b.len() == 2 && b[1].len() == 3 && b[1][0] == 1 => {
                        blocks.push(PBlock::Loop(u16::from_le_bytes([b[1][1], b[1][2]])));
                    }
                    _ => {
                        // a plain text is a graphic, too: the control block is its
                        if label == 1 {
                            blocks.extend(gce.take().map(PBlock::TextControl));
                        }
                        blocks.push(PBlock::Ext { label, blocks: b });
                    }
                }
            }
            0x2C => {
                let (left, top, w, h) = (c.u16("image")?, c.u16("image")?, c.u16("image")?, c.u16("image")?);
                let fl = c.u8("image")?;
                if fl & 0x18 != 0 {
                    return Err("reserved image descriptor bits set".into());
                }
                let local = if fl & 0x80 != 0 {
                    Some(c.take(3 * (2 << (fl & 7)), "local palette")?.to_vec())
                } else {
                    if fl & 7 != 0 {
                        return Err("palette size without a palette".into());
                    }
                    None
                };
                if local.is_none() && global.is_none() {
                    return Err("image without any palette".into());
                }
                let mcs = c.u8("minimum code size")?;
                if !(2..=8).contains(&mcs) {
                    return Err(format!("minimum code size {mcs}"));
                }
                let lzw: Vec<u8> = c.blocks()?.concat();
                let n = w as usize * h as usize;
                let (mut pixels, end) = lzw::decode(&lzw, mcs, n + 1);
                if end != LzwEnd::EndCode {
                    // the padding of data without an end code
                    pixels.truncate(n);
                }
                if end == LzwEnd::Invalid {
                    return Err(format!("invalid LZW code in image at {start}"));
                }
                if pixels.len() != n {
                    return Err(format!("image at {start} has {} pixels, not {n}", pixels.len()));
                }
                blocks.push(PBlock::Image(PImage {
                    gce: gce.take(),
                    left,
                    top,
                    w,
                    h,
                    interlaced: fl & 0x40 != 0,
                    local,
                    mcs,
                    lzw,
                    pixels,
                    ended_by_code: end == LzwEnd::EndCode,
                    start,
                    end: c.p,
                }));
            }
            b => return Err(format!("block type {b:#x} at offset {start}")),
        }
    }
}

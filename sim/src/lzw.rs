//! An independent GIF-LZW encoder and decoder (not weezl), written from the specification.
//!
//! The encoder models what a decoder's table looks like at each step, so it can emit any legal
//! code sequence for the data, not only the greedy one.

use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct LzwStyle {
    pub min_code_size: u8,
    /// 0 greedy (longest match), 1 literals only, 2 random match length
    pub matching: u8,
    /// emit the customary clear code first
    pub initial_clear: bool,
    /// extra clear codes: 0 none, 1 occasionally, 2 occasionally and doubled
    pub clears: u8,
    /// when the table is full: true = clear at once, false = go on with 12-bit codes
    pub clear_on_full: bool,
    pub end_code: bool,
    /// bytes of junk after the end code
    pub junk: u8,
    pub seed: u64,
}

impl LzwStyle {
    pub fn plain(min_code_size: u8) -> Self {
        LzwStyle { min_code_size, matching: 0, initial_clear: true, clears: 0, clear_on_full: true, end_code: true, junk: 0, seed: 0 }
    }
}

pub struct Bits {
    pub out: Vec<u8>,
    acc: u32,
    n: u32,
}

impl Bits {
    pub fn new() -> Self {
        Bits { out: Vec::new(), acc: 0, n: 0 }
    }
    pub fn put(&mut self, code: u16, width: u32) {
        self.acc |= u32::from(code) << self.n;
        self.n += width;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.out.push(self.acc as u8);
        }
        self.out
    }
}

/// Dictionary as the decoder sees it: each code is (prefix, last byte).
struct Dict {
    first_child: Vec<u16>,
    next_sibling: Vec<u16>,
    byte: Vec<u8>,
    next: usize,
    mcs: u32,
}

const NONE: u16 = u16::MAX;

impl Dict {
    fn new(mcs: u8) -> Self {
        let mut d = Dict { first_child: vec![NONE; 4097], next_sibling: vec![NONE; 4097], byte: vec![0; 4097], next: 0, mcs: u32::from(mcs) };
        d.clear();
        d
    }
    fn clear(&mut self) {
        self.next = (1 << self.mcs) + 2;
        self.first_child.iter_mut().for_each(|c| *c = NONE);
    }
    fn child(&self, code: u16, b: u8) -> Option<u16> {
        let mut c = self.first_child[code as usize];
        while c != NONE {
            if self.byte[c as usize] == b {
                return Some(c);
            }
            c = self.next_sibling[c as usize];
        }
        None
    }
    fn add(&mut self, prefix: u16, b: u8) {
        let c = self.next;
        // a string may be in the table twice (non-greedy encoders); keep the first one findable
        if self.child(prefix, b).is_none() {
            self.byte[c] = b;
            self.first_child[c] = NONE;
            self.next_sibling[c] = self.first_child[prefix as usize];
            self.first_child[prefix as usize] = c as u16;
        }
        self.next += 1;
    }
}

pub struct Encoded {
    pub data: Vec<u8>,
    pub codes: usize,
    pub table_full: bool,
    pub kwkwk: bool,
    pub clears: usize,
}

/// Encodes `px` (each < 2^mcs) as a code stream.
pub fn encode(px: &[u8], st: &LzwStyle) -> Encoded {
    let mcs = st.min_code_size;
    let clear = 1u16 << mcs;
    let mut rng = Rng::new(st.seed);
    let mut bits = Bits::new();
    let mut dict = Dict::new(mcs);
    let mut width = u32::from(mcs) + 1;
    let mut info = Encoded { data: vec![], codes: 0, table_full: false, kwkwk: false, clears: 0 };
    // previous code and the range of px it stood for; None right after a clear
    let mut prev: Option<(u16, usize, usize)> = None;
    if st.initial_clear {
        bits.put(clear, width);
        info.clears += 1;
    }
    let mut i = 0;
    while i < px.len() {
        let want_clear = (st.clears > 0 && rng.below(24) == 0) || (st.clear_on_full && dict.next >= 4096 && prev.is_some());
        if want_clear {
            let n = if st.clears == 2 { 1 + rng.below(3) } else { 1 };
            for _ in 0..n {
                bits.put(clear, width);
                info.clears += 1;
                dict.clear();
                width = u32::from(mcs) + 1;
            }
            prev = None;
        }
        // choose the match
        let mut code = u16::from(px[i]);
        let mut len = 1;
        let max = match st.matching {
            1 => 1,
            2 => 1 + rng.below(6) as usize,
            _ => usize::MAX,
        };
        while len < max && i + len < px.len() {
            match dict.child(code, px[i + len]) {
                Some(c) => {
                    code = c;
                    len += 1;
                }
                None => break,
            }
        }
        // the code that is about to be created may be used at once: previous string + its first byte
        if let Some((_, ps, pl)) = prev {
            if st.matching != 1 && dict.next < 4096 && pl + 1 > len && i + pl < px.len() && (st.matching == 0 || rng.below(2) == 0) {
                let fits = px[i..i + pl] == px[ps..ps + pl] && px[i + pl] == px[ps];
                if fits {
                    code = dict.next as u16;
                    len = pl + 1;
                    info.kwkwk = true;
                }
            }
        }
        bits.put(code, width);
        info.codes += 1;
        if let Some((pc, _, _)) = prev {
            if dict.next < 4096 {
                dict.add(pc, px[i]);
                if dict.next == 1 << width && width < 12 {
                    width += 1;
                }
                if dict.next == 4096 {
                    info.table_full = true;
                }
            }
        }
        prev = Some((code, i, len));
        i += len;
    }
    if st.end_code {
        bits.put(clear + 1, width);
    }
    info.data = bits.finish();
    if st.end_code {
        for _ in 0..st.junk {
            info.data.push(rng.next() as u8);
        }
    }
    info
}

#[derive(Debug, PartialEq)]
pub enum LzwEnd {
    EndCode,
    Exhausted,
    Invalid,
}

/// Decodes until an end code, an invalid code, or the data run out; never produces more than `max`.
pub fn decode(data: &[u8], mcs: u8, max: usize) -> (Vec<u8>, LzwEnd) {
    let clear = 1usize << mcs;
    let end = clear + 1;
    let mut prefix = vec![0u16; 4096];
    let mut last = vec![0u8; 4096];
    let mut next = clear + 2;
    let mut width = u32::from(mcs) + 1;
    let mut out = Vec::new();
    let mut prev: Option<usize> = None;
    let (mut acc, mut n, mut p) = (0u64, 0u32, 0usize);
    let mut tmp = Vec::new();
    loop {
        while n < width {
            match data.get(p) {
                Some(&b) => {
                    acc |= u64::from(b) << n;
                    n += 8;
                    p += 1;
                }
                None => return (out, LzwEnd::Exhausted),
            }
        }
        let code = (acc & ((1 << width) - 1)) as usize;
        acc >>= width;
        n -= width;
        if code == clear {
            next = clear + 2;
            width = u32::from(mcs) + 1;
            prev = None;
            continue;
        }
        if code == end {
            return (out, LzwEnd::EndCode);
        }
        tmp.clear();
        let mut c = match prev {
            Some(pc) if code == next && next < 4096 => {
                tmp.push(0);
                pc
            }
            _ if code < clear || (code > end && code < next) => code,
            _ => return (out, LzwEnd::Invalid),
        };
        if prev.is_none() && code >= clear {
            return (out, LzwEnd::Invalid);
        }
        while c > end {
            tmp.push(last[c]);
            c = prefix[c] as usize;
        }
        tmp.push(c as u8);
        let first = c as u8;
        if prev.is_some() && code == next {
            tmp[0] = first;
        }
        out.extend(tmp.iter().rev());
        if out.len() > max {
            out.truncate(max);
            return (out, LzwEnd::Exhausted);
        }
        if let Some(pc) = prev {
            if next < 4096 {
                prefix[next] = pc as u16;
                last[next] = first;
                next += 1;
                if next == 1 << width && width < 12 {
                    width += 1;
                }
            }
        }
        prev = Some(code);
    }
}

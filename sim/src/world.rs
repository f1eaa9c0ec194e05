//! The simulated environment: readers and writers whose every chunk boundary, error, interruption
//! and end of file is decided by the run's tape.

use crate::alloc::exempt;
use crate::baton::Baton;
use crate::sim::{Lane, Sim};
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// How input bytes are split over `read` calls.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Delivery {
    /// as much as the caller asks for
    Whole,
    Fixed(usize),
    /// 1..=max bytes, drawn per call
    Rand(usize),
    /// up to a structure boundary of the stream, give or take one byte
    Edges,
    /// mostly large, sometimes tiny
    Bursty,
}

impl Delivery {
    pub fn pick(sim: &Sim) -> Delivery {
        let d = match sim.weighted(Lane::Sched, &[2, 3, 4, 3, 3, 2]) {
            0 => Delivery::Whole,
            1 => Delivery::Fixed(1),
            2 => Delivery::Edges,
            3 => Delivery::Rand([2, 3, 5, 9, 17, 40, 300][sim.s(7) as usize]),
            4 => Delivery::Bursty,
            _ => Delivery::Fixed([2, 3, 5, 7, 8, 9, 13, 64, 255, 256, 257, 1000][sim.s(12) as usize]),
        };
        sim.probe(match d {
            Delivery::Whole => "delivery: whole",
            Delivery::Fixed(1) => "delivery: one byte at a time",
            Delivery::Fixed(_) => "delivery: fixed chunks",
            Delivery::Rand(_) => "delivery: random chunks",
            Delivery::Edges => "delivery: at structure edges",
            Delivery::Bursty => "delivery: bursty",
        });
        d
    }
}

macro_rules! kinds {
    ($($k:ident)*) => {
        /// Every stable kind except `Interrupted`: (kind, names as bare / custom error of reads and writes).
        const KINDS: &[(io::ErrorKind, [&str; 4])] = &[$((io::ErrorKind::$k, [
            concat!("read fault: bare ", stringify!($k)),
            concat!("write fault: bare ", stringify!($k)),
            concat!("read fault: custom error of kind ", stringify!($k)),
            concat!("write fault: custom error of kind ", stringify!($k)),
        ])),*];
    };
}
// those first that a library is most likely to treat specially
kinds! {
    WouldBlock TimedOut UnexpectedEof InvalidData InvalidInput OutOfMemory WriteZero Unsupported Other
    BrokenPipe ConnectionReset ConnectionAborted NotConnected StorageFull
    NotFound PermissionDenied ConnectionRefused HostUnreachable NetworkUnreachable AddrInUse AddrNotAvailable
    NetworkDown AlreadyExists NotADirectory IsADirectory DirectoryNotEmpty ReadOnlyFilesystem
    StaleNetworkFileHandle NotSeekable QuotaExceeded FileTooLarge ResourceBusy ExecutableFileBusy Deadlock
    TooManyLinks ArgumentListTooLong
}

/// How a read or write fails.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// an error that is nothing but a kind
    Bare(u8),
    /// an error with a payload, which must survive unchanged
    Custom(u8),
    /// an error of the operating system
    Os(i32),
    /// an error that wraps one of the library's own, as a device that uses the library would make
    Own(u8),
    /// `Ok(0)`: end of file although more bytes follow later, or no byte is accepted
    Nothing,
    /// unwinds out of `write` (drawn on purpose only)
    Panic,
}

/// What a sink that panics unwinds with.
pub const SINK_PANIC: &str = "simulated panic of the sink";

/// EIO ENOSPC ENOMEM EPIPE ECONNRESET EAGAIN EBADF EDQUOT EFBIG, one that does not exist
const OS_CODES: [i32; 10] = [5, 28, 12, 32, 104, 11, 9, 122, 27, 4095];

impl FaultKind {
    pub const WOULD_BLOCK: FaultKind = FaultKind::Bare(0);
    pub const TIMED_OUT: FaultKind = FaultKind::Bare(1);

    pub fn pick(sim: &Sim) -> FaultKind {
        let one = || if sim.f(3) < 2 { sim.f(14) as u8 } else { sim.f(KINDS.len() as u64) as u8 };
        match sim.f(8) {
            0..=2 => FaultKind::Bare(one()),
            3..=5 => FaultKind::Custom(one()),
            6 if sim.f(2) == 1 => FaultKind::Own(sim.f(12) as u8),
            6 => FaultKind::Os(OS_CODES[sim.f(OS_CODES.len() as u64) as usize]),
            _ => FaultKind::Nothing,
        }
    }

    /// The error to return, if any.
    fn error(self) -> Option<io::Error> {
        Some(match self {
            FaultKind::Bare(k) => io::Error::from(KINDS[k as usize].0),
            FaultKind::Custom(k) => io::Error::new(KINDS[k as usize].0, Payload),
            FaultKind::Os(c) => io::Error::from_raw_os_error(c),
            FaultKind::Own(k) => {
                let kind = KINDS[k as usize / 3].0;
                match k % 3 {
                    0 => io::Error::new(kind, gif::DecodingError::from(io::Error::from(io::ErrorKind::UnexpectedEof))),
                    1 => io::Error::new(kind, gif::Decoder::new(&b"GIF88a"[..]).err().unwrap_or(io::Error::from(kind).into())),
                    _ => io::Error::new(kind, gif::EncodingError::from(gif::EncodingFormatError::TooManyColors)),
                }
            }
            FaultKind::Nothing | FaultKind::Panic => return None,
        })
    }

    fn kind(self, write: bool) -> io::ErrorKind {
        match self.error() {
            Some(e) => e.kind(),
            None if write => io::ErrorKind::WriteZero,
            None => io::ErrorKind::UnexpectedEof,
        }
    }

    fn name(self, write: bool) -> &'static str {
        match self {
            FaultKind::Bare(k) => KINDS[k as usize].1[usize::from(write)],
            FaultKind::Custom(k) => KINDS[k as usize].1[2 + usize::from(write)],
            FaultKind::Own(_) if write => "write fault: wraps an error of the library",
            FaultKind::Own(_) => "read fault: wraps an error of the library",
            FaultKind::Os(_) if write => "write fault: OS error",
            FaultKind::Os(_) => "read fault: OS error",
            FaultKind::Nothing if write => "write fault: accepts zero bytes",
            FaultKind::Nothing => "read fault: premature end of file",
            FaultKind::Panic => "write fault: the sink panics",
        }
    }

    /// For event records.
    pub fn code(self) -> u64 {
        match self {
            FaultKind::Bare(k) => u64::from(k),
            FaultKind::Custom(k) => 100 + u64::from(k),
            FaultKind::Os(c) => 1000 + c as u64,
            FaultKind::Own(k) => 300 + u64::from(k),
            FaultKind::Nothing => 98,
            FaultKind::Panic => 99,
        }
    }

    /// Is `e` this fault, unchanged? Otherwise what is wrong.
    pub fn check(self, e: &io::Error, write: bool) -> Result<(), String> {
        let who = if write { "sink" } else { "reader" };
        if e.kind() != self.kind(write) {
            return Err(format!("the {who} failed with {:?} {:?}, reported as {:?}: {e}", self, self.kind(write), e.kind()));
        }
        match self {
            FaultKind::Custom(_) if !e.get_ref().map_or(false, |p| p.is::<Payload>()) => Err(format!("the error's payload is {:?}", e.get_ref().map(|p| p.to_string()))),
            FaultKind::Own(k) if !e.get_ref().map_or(false, |p| if k % 3 < 2 { p.is::<gif::DecodingError>() } else { p.is::<gif::EncodingError>() }) => {
                Err(format!("the error's payload is {:?}", e.get_ref().map(|p| p.to_string())))
            }
            FaultKind::Os(c) if e.raw_os_error() != Some(c) => Err(format!("the OS error code is {:?}, not {c}", e.raw_os_error())),
            _ => Ok(()),
        }
    }
}

/// The payload of custom errors.
#[derive(Debug)]
pub struct Payload;

impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("simulated device fault 7f3a")
    }
}

impl std::error::Error for Payload {}

#[derive(Clone, Copy, Debug)]
pub struct ReadFault {
    /// fires when exactly this many bytes have been delivered
    pub at: usize,
    pub kind: FaultKind,
    pub times: u32,
}

/// State shared with the property while the code under test owns the reader.
#[derive(Default)]
pub struct ReaderView {
    pub pos: AtomicUsize,
    pub reads: AtomicUsize,
    pub reads_at_end: AtomicUsize,
    pub faults_fired: AtomicUsize,
}

/// How many interruptions may follow one another: mostly few, sometimes very many.
fn pick_burst(sim: &Sim) -> u32 {
    if sim.chance(Lane::Fault, 1, 25) {
        [5, 9, 17, 65, 101, 257, 1025, 20_000][if sim.f(32) == 31 { 7 } else { sim.f(7) as usize }]
    } else {
        3
    }
}

/// Interruptions come in all the forms an error can have.
fn interrupted(k: u32) -> io::Error {
    match k % 4 {
        2 => io::Error::from_raw_os_error(4),
        3 => io::Error::new(io::ErrorKind::Interrupted, Payload),
        _ => io::Error::from(io::ErrorKind::Interrupted),
    }
}

pub struct SimReader {
    sim: Sim,
    data: Arc<Vec<u8>>,
    /// offsets where the stream's structures begin, ascending, with a name per structure
    bounds: Arc<Vec<(usize, &'static str)>>,
    delivery: Delivery,
    pos: usize,
    faults: Vec<ReadFault>,
    /// interruption probability (num, den) per read call
    eintr: (u64, u64),
    /// length of the next burst of interruptions
    burst: u32,
    consecutive_eintr: u32,
    view: Arc<ReaderView>,
    baton: Option<Baton>,
    /// called back before each read with the current position
    pub on_read: Option<Box<dyn FnMut(usize) + Send>>,
}

impl SimReader {
    pub fn new(sim: &Sim, data: Arc<Vec<u8>>, bounds: Arc<Vec<(usize, &'static str)>>, delivery: Delivery) -> Self {
        SimReader {
            sim: sim.clone(),
            data,
            bounds,
            delivery,
            pos: 0,
            faults: Vec::new(),
            eintr: (0, 1),
            burst: 3,
            consecutive_eintr: 0,
            view: Arc::default(),
            baton: None,
            on_read: None,
        }
    }
    pub fn plain(sim: &Sim, data: Arc<Vec<u8>>) -> Self {
        Self::new(sim, data, Arc::new(Vec::new()), Delivery::Whole)
    }
    pub fn faults(mut self, faults: Vec<ReadFault>) -> Self {
        self.faults = faults;
        self.faults.sort_by_key(|f| f.at);
        self
    }
    pub fn eintr(mut self, num: u64, den: u64) -> Self {
        self.eintr = (num, den);
        self.burst = pick_burst(&self.sim);
        self
    }
    pub fn baton(mut self, b: Baton) -> Self {
        self.baton = Some(b);
        self
    }
    pub fn view(&self) -> Arc<ReaderView> {
        self.view.clone()
    }
    /// bytes not handed out yet
    pub fn undelivered(&self) -> &[u8] {
        &self.data[self.pos.min(self.data.len())..]
    }

    fn read_inner(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(cb) = self.on_read.as_mut() {
            cb(self.pos);
        }
        self.view.reads.fetch_add(1, SeqCst);
        if buf.is_empty() {
            return Ok(0);
        }
        let sim = self.sim.clone();
        // a fault waiting here?
        if let Some(f) = self.faults.iter_mut().find(|f| f.at == self.pos && f.times > 0) {
            if f.times != u32::MAX {
                f.times -= 1;
            }
            let kind = f.kind;
            self.view.faults_fired.fetch_add(1, SeqCst);
            sim.ev("read-fault", self.pos as u64, kind.code());
            sim.probe(kind.name(false));
            return kind.error().map_or(Ok(0), Err);
        }
        // once it has begun, a long burst goes on to its end
        let more = self.burst > 3 && self.consecutive_eintr > 0;
        if self.eintr.0 > 0 && self.consecutive_eintr < self.burst && (more || sim.chance(Lane::Fault, self.eintr.0, self.eintr.1)) {
            self.consecutive_eintr += 1;
            sim.ev("read-eintr", self.pos as u64, 0);
            sim.probe("read fault: EINTR");
            // not work of the code under test
            self.view.reads.fetch_sub(1, SeqCst);
            return Err(interrupted(self.consecutive_eintr));
        }
        if self.burst > 3 && self.consecutive_eintr == self.burst {
            sim.probe("read fault: long burst of EINTR");
            self.burst = 3; // one is enough
        }
        self.consecutive_eintr = 0;
        let remaining = self.data.len() - self.pos;
        if remaining == 0 {
            self.view.reads_at_end.fetch_add(1, SeqCst);
            sim.ev("read-eof", self.pos as u64, buf.len() as u64);
            return Ok(0);
        }
        let mut n = match self.delivery {
            Delivery::Whole => buf.len(),
            Delivery::Fixed(k) => k,
            Delivery::Rand(max) => sim.s(max as u64) as usize + 1,
            Delivery::Bursty => {
                if sim.s(3) == 0 {
                    buf.len()
                } else {
                    sim.s(6) as usize + 1
                }
            }
            Delivery::Edges => {
                let skip = sim.s(3) as usize;
                let i = self.bounds.partition_point(|b| b.0 <= self.pos);
                match self.bounds.get(i + skip).or(self.bounds.last()) {
                    Some(b) if b.0 > self.pos => (b.0 - self.pos + 1).saturating_sub(sim.s(3) as usize),
                    _ => buf.len(),
                }
            }
        };
        n = n.clamp(1, buf.len()).min(remaining);
        if let Some(f) = self.faults.iter().find(|f| f.at > self.pos && f.times > 0) {
            n = n.min(f.at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.view.pos.store(self.pos, SeqCst);
        sim.ev("read", self.pos as u64, n as u64);
        // which structure did this chunk boundary fall into?
        if !self.bounds.is_empty() && self.pos < self.data.len() {
            let i = self.bounds.partition_point(|b| b.0 <= self.pos);
            if i > 0 {
                let (start, name) = self.bounds[i - 1];
                if start != self.pos {
                    sim.probe(name);
                }
            }
        }
        Ok(n)
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(b) = self.baton.clone() {
            b.yield_now();
        }
        exempt(|| self.read_inner(buf))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct WriteFault {
    /// fires when exactly this many bytes have been accepted
    pub at: usize,
    pub kind: FaultKind,
    /// `u32::MAX` = persistent
    pub times: u32,
}

#[derive(Default)]
pub struct SinkState {
    pub bytes: Vec<u8>,
    pub fired: u32,
    pub flush_failed: u32,
    pub writes: u64,
    pub dropped: bool,
}

pub type Sink = Arc<Mutex<SinkState>>;

pub fn sink_bytes(s: &Sink) -> Vec<u8> {
    s.lock().unwrap_or_else(|e| e.into_inner()).bytes.clone()
}
pub fn sink_len(s: &Sink) -> usize {
    s.lock().unwrap_or_else(|e| e.into_inner()).bytes.len()
}
pub fn sink_fired(s: &Sink) -> u32 {
    s.lock().unwrap_or_else(|e| e.into_inner()).fired
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Accept {
    All,
    Fixed(usize),
    Rand(usize),
}

impl Accept {
    pub fn pick(sim: &Sim) -> Accept {
        match sim.weighted(Lane::Sched, &[2, 3, 4, 2]) {
            0 => Accept::All,
            1 => Accept::Fixed(1),
            2 => Accept::Rand([2, 3, 5, 9, 40, 300][sim.s(6) as usize]),
            _ => Accept::Fixed([2, 3, 7, 64, 254, 255, 256][sim.s(7) as usize]),
        }
    }
}

pub struct SimWriter {
    sim: Sim,
    sink: Sink,
    accept: Accept,
    faults: Vec<WriteFault>,
    eintr: (u64, u64),
    /// length of the next burst of interruptions
    burst: u32,
    consecutive_eintr: u32,
    baton: Option<Baton>,
    /// called back before each write with the number of bytes accepted so far
    pub on_write: Option<Box<dyn FnMut(usize) + Send>>,
    /// flushing always fails
    pub bad_flush: bool,
}

impl SimWriter {
    pub fn new(sim: &Sim, sink: &Sink, accept: Accept) -> Self {
        SimWriter { sim: sim.clone(), sink: sink.clone(), accept, faults: Vec::new(), eintr: (0, 1), burst: 3, consecutive_eintr: 0, baton: None, on_write: None, bad_flush: false }
    }
    pub fn faults(mut self, mut f: Vec<WriteFault>) -> Self {
        f.sort_by_key(|f| f.at);
        self.faults = f;
        self
    }
    pub fn eintr(mut self, num: u64, den: u64) -> Self {
        self.eintr = (num, den);
        self.burst = pick_burst(&self.sim);
        self
    }
    pub fn baton(mut self, b: Baton) -> Self {
        self.baton = Some(b);
        self
    }

    fn write_inner(&mut self, buf: &[u8]) -> io::Result<usize> {
        let sim = self.sim.clone();
        let mut sink = self.sink.lock().unwrap_or_else(|e| e.into_inner());
        sink.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let pos = sink.bytes.len();
        if let Some(f) = self.faults.iter_mut().find(|f| f.at == pos && f.times > 0) {
            if f.times != u32::MAX {
                f.times -= 1;
            }
            sink.fired += 1;
            sim.ev("write-fault", pos as u64, f.kind.code());
            sim.probe(f.kind.name(true));
            if f.kind == FaultKind::Panic {
                drop(sink);
                std::panic::resume_unwind(Box::new(SINK_PANIC))
            }
            return f.kind.error().map_or(Ok(0), Err);
        }
        // once it has begun, a long burst goes on to its end
        let more = self.burst > 3 && self.consecutive_eintr > 0;
        if self.eintr.0 > 0 && self.consecutive_eintr < self.burst && (more || sim.chance(Lane::Fault, self.eintr.0, self.eintr.1)) {
            self.consecutive_eintr += 1;
            sim.ev("write-eintr", pos as u64, 0);
            sim.probe("write fault: EINTR");
            return Err(interrupted(self.consecutive_eintr));
        }
        if self.burst > 3 && self.consecutive_eintr == self.burst {
            sim.probe("write fault: long burst of EINTR");
            self.burst = 3; // one is enough
        }
        self.consecutive_eintr = 0;
        let mut n = match self.accept {
            Accept::All => buf.len(),
            Accept::Fixed(k) => k,
            Accept::Rand(max) => sim.s(max as u64) as usize + 1,
        };
        n = n.clamp(1, buf.len());
        if let Some(f) = self.faults.iter().find(|f| f.at > pos && f.times > 0) {
            n = n.min(f.at - pos);
        }
        if n < buf.len() {
            sim.probe("write fault: short write");
        }
        sink.bytes.extend_from_slice(&buf[..n]);
        sim.ev("write", (pos + n) as u64, n as u64);
        Ok(n)
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(b) = self.baton.clone() {
            b.yield_now();
        }
        if let Some(cb) = self.on_write.as_mut() {
            cb(sink_len(&self.sink));
        }
        exempt(|| self.write_inner(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        self.sim.ev("flush", 0, 0);
        if self.bad_flush {
            self.sink.lock().unwrap_or_else(|e| e.into_inner()).flush_failed += 1;
            self.sim.probe("write fault: flushing fails");
            return Err(io::Error::new(io::ErrorKind::Other, Payload));
        }
        Ok(())
    }
}

impl Drop for SimWriter {
    fn drop(&mut self) {
        if let Ok(mut s) = self.sink.lock() {
            s.dropped = true;
        }
    }
}

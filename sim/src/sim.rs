//! One simulated run: the choice tape, the event log and the counters.
//!
//! Every choice of a run is a draw from one of four independent lanes. When a run is generated the
//! lanes are seeded from the run's seed and every drawn value is recorded; when a run is replayed
//! the recorded values are used and missing ones read as 0 (which every generator treats as its
//! simplest alternative). A run is a pure function of (property, tape, code under test).

use crate::rng::{mix, Rng};
use std::sync::{Arc, Mutex, MutexGuard};

pub const LANES: usize = 4;
pub const LANE_NAMES: [&str; LANES] = ["workload", "schedule", "faults", "consumer"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lane {
    Work = 0,
    Sched = 1,
    Fault = 2,
    Cons = 3,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct TapeData {
    pub lanes: [Vec<u64>; LANES],
}

struct Tape {
    /// every draw is also written here at once, so that it survives the death of the process
    spool: Option<std::fs::File>,
    rec: TapeData,
    pos: [usize; LANES],
    gen: Option<[Rng; LANES]>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub type Check<T = ()> = Result<T, Violation>;

pub fn violation<T>(class: &str, detail: impl Into<String>) -> Check<T> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::sim::violation($class, format!($($arg)*));
        }
    };
}

pub struct Core {
    tape: Tape,
    digest: u64,
    pub ticks: u64,
    pub counters: Vec<(&'static str, u64)>,
    trace: Option<Vec<String>>,
    /// true once something happened that makes this run non-trivial for its property
    pub nontrivial: bool,
}

#[derive(Clone)]
pub struct Sim(Arc<Mutex<Core>>);

/// What remains of a run when it is over.
pub struct Finished {
    pub tape: TapeData,
    pub digest: u64,
    pub ticks: u64,
    pub counters: Vec<(&'static str, u64)>,
    pub trace: Vec<String>,
    pub nontrivial: bool,
}

impl Sim {
    pub fn generate(seed: u64, trace: bool) -> Sim {
        let gen = [0u64, 1, 2, 3].map(|l| Rng::new(mix(seed ^ (l + 1).wrapping_mul(0xA076_1D64_78BD_642F))));
        Self::build(Tape { spool: None, rec: TapeData::default(), pos: [0; LANES], gen: Some(gen) }, trace)
    }

    pub fn replay(data: TapeData, trace: bool) -> Sim {
        Self::build(Tape { spool: None, rec: data, pos: [0; LANES], gen: None }, trace)
    }

    pub fn spool_to(&self, f: std::fs::File) {
        self.core().tape.spool = Some(f);
    }

    fn build(tape: Tape, trace: bool) -> Sim {
        Sim(Arc::new(Mutex::new(Core {
            tape,
            digest: 0,
            ticks: 0,
            counters: Vec::with_capacity(128),
            trace: trace.then(|| Vec::with_capacity(4096)),
            nontrivial: false,
        })))
    }

    fn core(&self) -> MutexGuard<'_, Core> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Draws a value in 0..n.
    pub fn draw(&self, lane: Lane, n: u64) -> u64 {
        crate::alloc::exempt(|| {
            let mut c = self.core();
            let l = lane as usize;
            let v = if let Some(gen) = c.tape.gen.as_mut() {
                let v = gen[l].below(n);
                c.tape.rec.lanes[l].push(v);
                if let Some(f) = c.tape.spool.as_mut() {
                    use std::io::Write;
                    let _ = f.write_all(format!("{l} {v}\n").as_bytes());
                }
                v
            } else {
                let p = c.tape.pos[l];
                let v = c.tape.rec.lanes[l].get(p).copied().unwrap_or(0);
                if n <= 1 {
                    0
                } else {
                    v % n
                }
            };
            c.tape.pos[l] += 1;
            v
        })
    }

    pub fn w(&self, n: u64) -> u64 {
        self.draw(Lane::Work, n)
    }
    pub fn s(&self, n: u64) -> u64 {
        self.draw(Lane::Sched, n)
    }
    pub fn f(&self, n: u64) -> u64 {
        self.draw(Lane::Fault, n)
    }
    pub fn c(&self, n: u64) -> u64 {
        self.draw(Lane::Cons, n)
    }
    /// true with probability num/den; false is the simplest alternative
    pub fn chance(&self, lane: Lane, num: u64, den: u64) -> bool {
        // 0 must mean "no"
        self.draw(lane, den) >= den - num
    }
    /// index into a weight list; index 0 is the simplest alternative
    pub fn weighted(&self, lane: Lane, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(lane, total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }

    /// Appends an event to the log (kept as a digest; as text when tracing).
    pub fn ev(&self, tag: &'static str, a: u64, b: u64) {
        crate::alloc::exempt(|| {
            let mut c = self.core();
            c.ticks += 1;
            let mut h = c.digest;
            for byte in tag.bytes() {
                h = (h ^ u64::from(byte)).wrapping_mul(0x100_0000_01b3);
            }
            c.digest = mix(h ^ mix(a).rotate_left(17) ^ mix(b ^ 0x55).rotate_left(40));
            let t = c.ticks;
            if let Some(tr) = c.trace.as_mut() {
                if tr.len() < 20_000 {
                    tr.push(format!("{t:>6} {tag} {a} {b}"));
                }
            }
        });
    }

    /// Adds a line to the trace only.
    pub fn note(&self, f: impl FnOnce() -> String) {
        crate::alloc::exempt(|| {
            let mut c = self.core();
            if let Some(tr) = c.trace.as_mut() {
                if tr.len() < 20_000 {
                    tr.push(format!("       # {}", f()));
                }
            }
        });
    }

    /// Counts that something rare or interesting happened.
    pub fn probe(&self, name: &'static str) {
        self.count(name, 1);
    }

    pub fn count(&self, name: &'static str, n: u64) {
        crate::alloc::exempt(|| {
            let mut c = self.core();
            if let Some(e) = c.counters.iter_mut().find(|e| std::ptr::eq(e.0, name) || e.0 == name) {
                e.1 += n;
            } else {
                c.counters.push((name, n));
            }
        });
    }

    pub fn nontrivial(&self) {
        self.core().nontrivial = true;
    }

    pub fn finish(&self) -> Finished {
        let mut c = self.core();
        Finished {
            tape: std::mem::take(&mut c.tape.rec),
            digest: c.digest,
            ticks: c.ticks,
            counters: std::mem::take(&mut c.counters),
            trace: c.trace.take().unwrap_or_default(),
            nontrivial: c.nontrivial,
        }
    }
}

/// Content hash used in log events.
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut it = b.chunks_exact(8);
    for c in it.by_ref() {
        let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        h = (h ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    for &x in it.remainder() {
        h = (h ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
    }
    mix(h ^ b.len() as u64)
}

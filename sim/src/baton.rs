//! Baton passing: real threads of which exactly one runs at any time. Who runs next is drawn from
//! the run's schedule lane, so an interleaving is a function of the tape.
//!
//! The code under test may use locks, once-cells, condition variables and parking of its own. All of
//! them wait and wake through `futex`, which the standard library reaches by the C symbol `syscall`;
//! this process supplies that symbol, so who waits for what, and who is woken first, are functions
//! of the tape too.
//!
//! A thread that blocks on anything else while it is its turn (joining a thread it started itself)
//! is noticed by the others, the turn passes on, and it joins in again at its next scheduling point.

use crate::sim::Sim;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct State {
    /// which threads still run
    alive: Vec<bool>,
    /// who may run
    turn: Option<usize>,
    switches: u64,
    /// how often the turn was given to anyone
    turns: u64,
    /// waiting for something that is not the turn
    blocked: Vec<bool>,
    /// waiting to be woken at this address
    waiting: Vec<Option<usize>>,
    tids: Vec<Option<String>>,
}

struct Shared {
    sim: Sim,
    state: Mutex<State>,
    /// one for each thread: passing the turn on wakes nobody else
    cvs: Vec<Condvar>,
    /// 1 in `den` yields keeps... the probability of switching is (den-1)/den
    stickiness: u64,
    /// is the thread in the simulator's code?
    inside: Vec<AtomicBool>,
}

impl Shared {
    /// Wakes whoever has the turn.
    fn wake(&self, st: &State) {
        if let Some(i) = st.turn {
            self.cvs[i].notify_one();
        }
    }
}

#[derive(Clone)]
pub struct Baton {
    shared: Arc<Shared>,
    me: usize,
}

thread_local! {
    /// the baton of a simulated thread
    static CURRENT: Cell<*const Baton> = const { Cell::new(std::ptr::null()) };
}

impl Baton {
    fn pick_next(shared: &Shared, st: &mut State, from: Option<usize>) {
        st.turns += 1;
        let live: Vec<usize> = (0..st.alive.len()).filter(|&i| st.alive[i] && !st.blocked[i] && st.waiting[i].is_none()).collect();
        if live.is_empty() {
            // all wait: for a thread that is not simulated, or for one another, which the watchdog
            // ends; a wake-up without a reason is something `futex` callers have to expect
            if let Some(i) = (0..st.alive.len()).find(|&i| st.alive[i] && !st.blocked[i]) {
                st.waiting[i] = None;
                st.turn = Some(i);
                std::thread::sleep(Duration::from_millis(1));
                return;
            }
            st.turn = None;
            return;
        }
        if let Some(me) = from {
            // so many turns are enough: from now on each goes on until it ends or has to wait
            if st.turns > 60_000 && st.alive[me] && st.waiting[me].is_none() {
                return;
            }
            if st.alive[me] && st.waiting[me].is_none() && shared.stickiness > 0 && shared.sim.s(shared.stickiness + 1) == 0 {
                return; // keep running
            }
        }
        let next = live[shared.sim.s(live.len() as u64) as usize];
        if st.turn != Some(next) {
            st.switches += 1;
            shared.sim.ev("switch", next as u64, 0);
        }
        st.turn = Some(next);
    }

    fn state(&self) -> MutexGuard<'_, State> {
        self.shared.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Parks the thread until it is its turn.
    fn wait_turn<'a>(&'a self, mut st: MutexGuard<'a, State>) {
        let patience = Duration::from_millis(st.alive.len().max(4) as u64);
        while st.turn != Some(self.me) {
            if st.turn.is_none() && st.blocked[self.me] {
                st.turn = Some(self.me);
                break;
            }
            st.blocked[self.me] = false;
            let (guard, timeout) = self.shared.cvs[self.me].wait_timeout(st, patience).unwrap_or_else(|e| e.into_inner());
            st = guard;
            // one of the parked threads watches whoever has the turn
            let watcher = (0..st.alive.len()).find(|&i| st.alive[i] && !st.blocked[i] && st.turn != Some(i));
            if timeout.timed_out() && watcher == Some(self.me) {
                if let Some((holder, tid)) = st.turn.and_then(|h| Some((h, st.tids[h].clone()?))) {
                    let turns = st.turns;
                    drop(st);
                    let stuck = self.is_stuck(holder, &tid);
                    st = self.state();
                    if stuck && st.turns == turns {
                        self.take_turn(&mut st, holder);
                    }
                }
            }
        }
        st.blocked[self.me] = false;
    }

    /// Does this thread sleep for good, outside the simulator?
    fn is_stuck(&self, thread: usize, proc_dir: &str) -> bool {
        let mut before = None;
        for _ in 0..5 {
            if self.shared.inside[thread].load(SeqCst) {
                return false;
            }
            let Some(now) = asleep(proc_dir) else { return false };
            if before.is_some_and(|b| b != now) {
                return false;
            }
            before = Some(now);
            std::thread::sleep(Duration::from_millis(1));
        }
        !self.shared.inside[thread].load(SeqCst)
    }

    /// Passes the turn on from a blocked thread.
    fn take_turn(&self, st: &mut State, holder: usize) {
        st.blocked[holder] = true;
        Self::pick_next(&self.shared, st, None);
        if st.turn.is_none() {
            // everybody is: that is for the watchdog
            st.turn = Some(holder);
            st.blocked[holder] = false;
            return;
        }
        self.shared.sim.probe("delivery: turn taken from a blocked thread");
        self.shared.wake(st);
    }

    /// A scheduling point.
    pub fn yield_now(&self) {
        self.inside(|| {
            let mut st = self.state();
            if st.turn == Some(self.me) {
                Self::pick_next(&self.shared, &mut st, Some(self.me));
                if st.turn != Some(self.me) {
                    self.shared.wake(&st);
                }
            }
            self.wait_turn(st);
        });
    }

    /// Waits at the address, as `futex` does; None when that is not for the simulator to decide.
    ///
    /// # Safety
    /// As for the system call.
    unsafe fn futex_wait(&self, addr: *const AtomicU32, expected: u32) -> Option<Result<i64, i32>> {
        let mut out = None;
        self.inside(|| {
            let mut st = self.state();
            if st.turn != Some(self.me) {
                return;
            }
            if (*addr).load(SeqCst) != expected {
                out = Some(Err(EAGAIN));
                return;
            }
            self.shared.sim.probe("delivery: a lock of the code under test was waited for");
            st.waiting[self.me] = Some(addr as usize);
            Self::pick_next(&self.shared, &mut st, None);
            self.shared.wake(&st);
            self.wait_turn(st);
            out = Some(Ok(0));
        });
        out
    }

    /// Wakes up to `n` threads that wait at the address, in a drawn order.
    fn futex_wake(&self, addr: usize, n: u64) -> i64 {
        let mut woken = 0;
        self.inside(|| {
            let mut st = self.state();
            while (woken as u64) < n {
                let those: Vec<usize> = (0..st.waiting.len()).filter(|&i| st.waiting[i] == Some(addr)).collect();
                if those.is_empty() {
                    break;
                }
                let i = those[if those.len() > 1 { self.shared.sim.s(those.len() as u64) as usize } else { 0 }];
                st.waiting[i] = None;
                woken += 1;
            }
        });
        if woken > 0 && !std::thread::panicking() {
            self.yield_now();
        }
        woken
    }

    fn start(&self) {
        let tid = std::fs::read_link("/proc/thread-self").ok();
        self.inside(|| {
            let mut st = self.state();
            st.tids[self.me] = tid.map(|l| format!("/proc/{}", l.display()));
            self.wait_turn(st);
        });
    }

    fn exit(&self) {
        self.inside(|| {
            let mut st = self.state();
            st.alive[self.me] = false;
            if st.turn == Some(self.me) {
                Self::pick_next(&self.shared, &mut st, None);
            }
            self.shared.wake(&st);
        });
    }

    fn inside(&self, f: impl FnOnce()) {
        let flag = &self.shared.inside[self.me];
        flag.store(true, SeqCst);
        crate::alloc::exempt(f);
        flag.store(false, SeqCst);
    }
}

const EAGAIN: i32 = 11;
const SYS_FUTEX: i64 = 202;

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
extern "C" {
    fn __errno_location() -> *mut i32;
}

/// What the standard library asks the system for directly: its locks come here.
///
/// # Safety
/// As for the C function.
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let mut woken = 0;
    if num == SYS_FUTEX && !crate::alloc::exempted() {
        let baton = CURRENT.try_with(Cell::get).unwrap_or(std::ptr::null());
        if !baton.is_null() {
            // without FUTEX_PRIVATE_FLAG and FUTEX_CLOCK_REALTIME
            match b & 0x7f {
                0 | 9 => match (*baton).futex_wait(a as *const AtomicU32, c as u32) {
                    Some(Ok(r)) => return r,
                    Some(Err(code)) => {
                        *__errno_location() = code;
                        return -1;
                    }
                    None => {}
                },
                1 | 10 => woken = (*baton).futex_wake(a, c as u64),
                _ => {}
            }
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r + woken
}

/// The number of times a thread has gone to sleep, if it sleeps now.
fn asleep(proc_dir: &str) -> Option<u64> {
    let text = std::fs::read_to_string(format!("{proc_dir}/status")).ok()?;
    let field = |name: &str| text.lines().find_map(|l| l.strip_prefix(name)).map(str::trim);
    if !field("State:")?.starts_with('S') {
        return None;
    }
    field("voluntary_ctxt_switches:")?.parse().ok()
}

/// Runs the jobs on one thread each, one at a time, switching at their scheduling points.
/// Returns their results (Err = the thread panicked) and the number of context switches.
pub fn run_threads<T: Send + 'static>(
    sim: &Sim,
    jobs: Vec<Box<dyn FnOnce(Baton) -> T + Send + 'static>>,
) -> (Vec<Result<T, String>>, u64) {
    let n = jobs.len();
    let stickiness = sim.s(4);
    let shared = Arc::new(Shared {
        sim: sim.clone(),
        state: Mutex::new(State { alive: vec![true; n], turn: None, switches: 0, turns: 0, blocked: vec![false; n], waiting: vec![None; n], tids: vec![None; n] }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        stickiness,
        inside: (0..n).map(|_| AtomicBool::new(true)).collect(),
    });
    let handles: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(i, job)| {
            let baton = Baton { shared: shared.clone(), me: i };
            std::thread::spawn(move || {
                CURRENT.with(|c| c.set(&baton));
                baton.start();
                let b2 = baton.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || job(b2)));
                let r = r.map_err(|_| crate::panics::take());
                CURRENT.with(|c| c.set(std::ptr::null()));
                baton.exit();
                r
            })
        })
        .collect();
    {
        let mut st = shared.state.lock().unwrap_or_else(|e| e.into_inner());
        Baton::pick_next(&shared, &mut st, None);
        shared.wake(&st);
    }
    let out: Vec<Result<T, String>> = handles
        .into_iter()
        .map(|h| match h.join() {
            Ok(r) => r,
            Err(_) => Err("thread died".into()),
        })
        .collect();
    let st = shared.state.lock().unwrap_or_else(|e| e.into_inner());
    (out, st.switches)
}

//! The allocator seam: every heap allocation of the process goes through here, so that a run can
//! measure the peak of live heap bytes and can make one chosen allocation fail.
//!
//! Allocations made by the simulator itself while it is being called from the code under test are
//! neither counted as failing candidates nor allowed to fail (see `exempt`).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

static LIVE: AtomicI64 = AtomicI64::new(0);
/// live bytes when the current run began
static BASE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
/// number of further candidate allocations before the failing one
static COUNTDOWN: AtomicI64 = AtomicI64::new(0);
static CANDIDATES: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
/// biggest single request since `reset_peak`
static BIGGEST: AtomicU64 = AtomicU64::new(0);
/// bytes requested in total since `reset_peak`
static CHURN: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static EXEMPT: Cell<u32> = const { Cell::new(0) };
}

/// Does the simulator itself run?
pub fn exempted() -> bool {
    EXEMPT.try_with(|e| e.get() > 0).unwrap_or(true)
}

/// Runs simulator code during which the injected allocation failure cannot fire.
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    let _ = EXEMPT.try_with(|e| e.set(e.get() + 1));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let _ = EXEMPT.try_with(|e| e.set(e.get().saturating_sub(1)));
        }
    }
    let _g = G;
    f()
}

/// No run needs anything near this; a request beyond it fails, so that a runaway allocation ends
/// the run (attributably) and not the machine.
const HARD_CAP: i64 = 3 << 30;

fn too_much(n: usize) -> bool {
    LIVE.load(Relaxed) - BASE.load(Relaxed) + n as i64 > HARD_CAP
}

thread_local! {
    /// set while an allocation of this thread is a scheduling point
    static YIELD: Cell<*const crate::baton::Baton> = const { Cell::new(std::ptr::null()) };
}

/// Makes every allocation of the code under test in `f` a scheduling point of the thread.
pub fn yielding<T>(b: &crate::baton::Baton, f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            YIELD.with(|y| y.set(std::ptr::null()));
        }
    }
    YIELD.with(|y| y.set(b));
    let _g = G;
    f()
}

fn scheduling_point() {
    let p = YIELD.try_with(Cell::get).unwrap_or(std::ptr::null());
    if !p.is_null() && !exempted() && !std::thread::panicking() {
        // SAFETY: `yielding` keeps the baton borrowed while the pointer is set
        unsafe { (*p).yield_now() };
    }
}

/// Requests smaller than this are not candidates: their size is nothing the input controls.
const SMALL: usize = 32;

fn should_fail(n: usize) -> bool {
    scheduling_point();
    if !ARMED.load(Relaxed) || exempted() || n < SMALL {
        return false;
    }
    CANDIDATES.fetch_add(1, Relaxed);
    if COUNTDOWN.fetch_sub(1, Relaxed) == 0 {
        FIRED.fetch_add(1, Relaxed);
        return true;
    }
    false
}

/// Memory of the simulator itself (exempt code) is not accounted.
fn add(n: usize) {
    if exempted() {
        return;
    }
    BIGGEST.fetch_max(n as u64, Relaxed);
    CHURN.fetch_add(n as u64, Relaxed);
    let live = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(live, Relaxed);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if should_fail(l.size()) || too_much(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if should_fail(l.size()) || too_much(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        if !exempted() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if should_fail(new) || too_much(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            // old and new may coexist while the contents are moved
            add(new);
            if !exempted() {
                LIVE.fetch_sub(l.size() as i64, Relaxed);
            }
        }
        q
    }
}

/// Called at the beginning of each run.
pub fn begin_run() {
    BASE.store(LIVE.load(Relaxed), Relaxed);
}

/// Live heap bytes now; also restarts the peak measurement from here.
pub fn reset_peak() -> i64 {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    BIGGEST.store(0, Relaxed);
    CHURN.store(0, Relaxed);
    live
}

/// Highest number of live heap bytes since `reset_peak`.
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}

/// Bytes requested in total since `reset_peak`: a deterministic measure of work that grows with
/// copying from buffer to buffer.
pub fn churn() -> u64 {
    CHURN.load(Relaxed)
}

/// Fail the `nth` (0-based) candidate allocation from now on.
pub fn arm(nth: u64) {
    COUNTDOWN.store(nth as i64, Relaxed);
    CANDIDATES.store(0, Relaxed);
    FIRED.store(0, Relaxed);
    ARMED.store(true, Relaxed);
}

/// Stop failing; returns (candidates seen, failures fired).
pub fn disarm() -> (u64, u64) {
    ARMED.store(false, Relaxed);
    (CANDIDATES.load(Relaxed), FIRED.load(Relaxed))
}

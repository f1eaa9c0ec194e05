//! The entropy seam. The standard library draws hash-map keys with the C symbol `getrandom`;
//! this process supplies that symbol, so hash iteration order is a function of the run's seed.

use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static STATE: AtomicU64 = AtomicU64::new(1);
static CALLS: AtomicU64 = AtomicU64::new(0);

/// Sets what the "operating system" will return next as random bytes.
pub fn seed(s: u64) {
    STATE.store(s, Relaxed);
}

/// How often the code under test (or std) asked for entropy so far.
pub fn calls() -> u64 {
    CALLS.load(Relaxed)
}

/// # Safety
/// `buf` must be valid for `len` bytes, as for the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, Relaxed);
    let mut s = STATE.load(Relaxed);
    for i in 0..len {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        *buf.add(i) = crate::rng::mix(s) as u8;
    }
    STATE.store(s, Relaxed);
    len as isize
}

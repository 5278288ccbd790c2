//! A simulated slow machine: while a step is set, every look at the monotonic clock advances it by
//! that much. (Defined in the check binaries that need it; the symbol takes the place of libc's.)
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static STEP: AtomicU64 = AtomicU64::new(0);
static EXTRA: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    if r == 0 && clk == libc::CLOCK_MONOTONIC {
        let step = STEP.load(SeqCst);
        let extra = EXTRA.fetch_add(step, SeqCst) + step;
        let ns = (*ts).tv_nsec as u64 + extra % 1_000_000_000;
        (*ts).tv_sec += (extra / 1_000_000_000) as libc::time_t + (ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as _;
    }
    r
}
/// Runs f on a machine where every look at the clock takes `ms`; also the simulated seconds it took.
pub fn slow<X>(ms: u64, f: impl FnOnce() -> X) -> (X, f64) {
    EXTRA.store(0, SeqCst);
    STEP.store(ms * 1_000_000, SeqCst);
    let x = f();
    STEP.store(0, SeqCst);
    let s = EXTRA.swap(0, SeqCst) as f64 / 1e9;
    (x, s)
}

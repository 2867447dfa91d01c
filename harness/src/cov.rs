//! Callbacks of the compiler instrumentation of the library crate: which edges were executed,
//! and how many edge executions a call needed.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

const MAX: usize = 1 << 20;
static HIT: [AtomicU8; MAX] = [const { AtomicU8::new(0) }; MAX];
static NEXT: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = NEXT.fetch_add(1, Relaxed) + 1;
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard as usize;
    if g < MAX {
        if HIT[g].load(Relaxed) == 0 {
            HIT[g].store(1, Relaxed);
        }
    }
    let s = STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        n
    });
    if s > LIMIT.with(|l| l.get()) {
        crate::exec::runaway(s);
    }
}

/// run with a step limit, returning the number of steps
pub fn counted<R>(limit: u64, f: impl FnOnce() -> R) -> (R, u64) {
    STEPS.with(|s| s.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = f();
    LIMIT.with(|l| l.set(u64::MAX));
    (r, STEPS.with(|s| s.get()))
}
pub fn edges() -> (usize, usize) {
    let n = NEXT.load(Relaxed) as usize;
    ((1..=n.min(MAX - 1)).filter(|i| HIT[*i].load(Relaxed) != 0).count(), n)
}

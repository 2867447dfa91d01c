//! Counting allocator: how much memory the library asks for, and how much of it stays alive.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

thread_local! {
    /// bytes ever requested by this thread (moved bytes of a growing block included)
    static ASKED: Cell<u64> = const { Cell::new(0) };
    /// bytes requested minus bytes returned by this thread
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn note(asked: usize, live: i64) {
    let _ = ASKED.try_with(|a| a.set(a.get() + asked as u64));
    let _ = LIVE.try_with(|l| l.set(l.get() + live));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn asked() -> u64 {
    ASKED.with(|a| a.get())
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

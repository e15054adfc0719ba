//! Counting what a decode costs: types asked for, and memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// More than this at once is refused, as a machine with little memory would.
const LIMIT: usize = 1 << 30;

fn note(delta: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + delta;
        l.set(n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
    });
    if delta > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + delta as u64));
        let _ = CALLS.try_with(|t| t.set(t.get() + 1));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Peak of additional memory in bytes, and types asked for, while running `f`.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    crate::reg::RESOLVED.with(|r| r.set(0));
    let r = f();
    let peak = (PEAK.with(|p| p.get()) - live).max(0) as u64;
    (r, peak, crate::reg::RESOLVED.with(|r| r.get()))
}

//! A counting allocator: per-thread live bytes, peak and allocation count.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Counted as an allocation of the new block and then a release of the old one.
        add(n as i64);
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

/// Live bytes of this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Starts measuring a peak; returns the current level.
pub fn reset_peak() -> i64 {
    let l = live();
    PEAK.with(|p| p.set(l));
    l
}

pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

/// All bytes ever requested by this thread.
pub fn total() -> u64 {
    TOTAL.with(|c| c.get())
}

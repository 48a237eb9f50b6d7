//! A counting allocator: how much memory this thread holds, and the most it held.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    // (not available while the thread ends; nothing is measured then)
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// What a call returned, the most memory it needed, and the memory its result holds (with
/// whatever it left behind).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let before = live();
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get()) - before, live() - before)
}

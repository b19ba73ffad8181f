//! An allocator that counts, per thread, the heap memory in use, and refuses absurd amounts.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}

/// A single thread may not hold more than this: beyond it allocation fails, which ends the process.
const CAP: isize = 6 << 30;

fn grow(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if v > CAP {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub struct Use {
    pub peak: usize,
    pub left: isize,
    pub calls: usize,
}

/// Run `f` on this thread; how much memory it used at most, and how much it left in use.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let calls = CALLS.with(|c| c.get());
    let r = f();
    let after = LIVE.with(|l| l.get());
    let peak = PEAK.with(|p| p.get());
    let n = CALLS.with(|c| c.get()) - calls;
    (r, Use { peak: (peak - before).max(0) as usize, left: after - before, calls: n })
}

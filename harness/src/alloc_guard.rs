//! Counting allocator: per-thread live/peak bytes, and a hard ceiling that turns absurd requests into allocation failure.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guard;
const MAX_SINGLE: usize = 1 << 30;
const MAX_LIVE: isize = 5 << 29;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
fn add(n: usize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        if n > MAX_SINGLE || v > MAX_LIVE {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        let _ = BIGGEST.try_with(|b| {
            if n > b.get() {
                b.set(n);
            }
        });
        true
    })
    .unwrap_or(true)
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if add(l.size()) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if add(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        if r.is_null() { sub(n) } else { sub(l.size()) }
        r
    }
}
/// Starts measuring: returns the live byte count now.
pub fn begin() -> isize {
    let l = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(l));
    BIGGEST.with(|b| b.set(0));
    l
}
/// Peak of live bytes since `begin`, relative to `base`.
pub fn peak_since(base: isize) -> usize {
    (PEAK.with(Cell::get) - base).max(0) as usize
}
pub fn end_case() {
    // memory may migrate between threads; each case starts from zero
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}

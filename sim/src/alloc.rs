//! Global allocator: counts live bytes and peak per thread, and is a yield point of the scheduler.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
    static NALLOC: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if n > 0 {
        let _ = BIGGEST.try_with(|b| {
            if n as u64 > b.get() {
                b.set(n as u64)
            }
        });
        let _ = NALLOC.try_with(|c| c.set(c.get() + 1));
    }
}

fn hook() {
    if let Ok(Some(f)) = HOOK.try_with(|h| h.get()) {
        let _ = HOOK.try_with(|h| h.set(None));
        f();
        let _ = HOOK.try_with(|h| h.set(Some(f)));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hook();
        add(l.size() as i64);
        if l.size() > 4 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hook();
        add(l.size() as i64);
        if l.size() > 4 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hook();
        add(n as i64);
        if n > 4 << 30 {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        add(-(l.size() as i64));
        q
    }
}

/// start measuring: returns the base to subtract
pub fn mark() -> i64 {
    LIVE.with(|l| {
        let v = l.get();
        PEAK.with(|p| p.set(v));
        BIGGEST.with(|b| b.set(0));
        v
    })
}
pub fn peak_since(base: i64) -> u64 {
    PEAK.with(|p| (p.get() - base).max(0) as u64)
}
pub fn set_hook(f: Option<fn()>) {
    HOOK.with(|h| h.set(f));
}
pub fn get_hook() -> Option<fn()> {
    HOOK.with(|h| h.get())
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

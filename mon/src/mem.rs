//! Counts what a thread has allocated and not given back, and, when asked, the whole process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
static ALL: AtomicBool = AtomicBool::new(false);
static ALL_LIVE: AtomicI64 = AtomicI64::new(0);

fn note(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    if ALL.load(Relaxed) {
        ALL_LIVE.fetch_add(d, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        note(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            note(n as i64 - l.size() as i64);
        }
        q
    }
}

/// bytes this thread has allocated less those it has freed
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// the most bytes by which `live` rose during the call
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let at = live();
    let before = PEAK.with(|p| p.replace(at));
    let r = f();
    let top = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(before.max(top)));
    (r, top - at)
}

/// from now on `all_live` counts what all threads allocate less what they free
pub fn count_all() {
    ALL.store(true, Relaxed);
}

pub fn all_live() -> i64 {
    ALL_LIVE.load(Relaxed)
}

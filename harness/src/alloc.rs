//! The harness' global allocator: counts live and peak bytes, and fills memory with a pattern when
//! it is handed out and another one when it is given back. Memory a result exposes without having
//! been written then reads as NaN / u64::MAX instead of plausible leftovers, and so does memory
//! read after it was freed. Sanitizer builds do their own tracking and use it without patterns.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicBool = AtomicBool::new(false);
static FILL: AtomicBool = AtomicBool::new(false);

fn add(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    BLOCKS.fetch_add(1, Relaxed);
    TOTAL.fetch_add(n, Relaxed);
    PEAK.fetch_max(live, Relaxed);
}
fn sub(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
    BLOCKS.fetch_sub(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if COUNT.load(Relaxed) {
            add(l.size());
        }
        if !p.is_null() && FILL.load(Relaxed) {
            std::ptr::write_bytes(p, 0xFF, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if COUNT.load(Relaxed) {
            add(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if COUNT.load(Relaxed) {
            sub(l.size());
        }
        if FILL.load(Relaxed) {
            std::ptr::write_bytes(p, 0xEE, l.size());
        }
        System.dealloc(p, l)
    }
    // the default realloc allocates, copies and deallocates, which is counted and filled above
}

/// Count from here on. Must be called before other threads exist; blocks allocated before are
/// subtracted again when freed, so only use differences.
pub fn count() {
    COUNT.store(true, Relaxed)
}
pub fn fill() {
    FILL.store(!cfg!(fxh_sanitize) && !cfg!(miri), Relaxed)
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn blocks() -> usize {
    BLOCKS.load(Relaxed)
}
pub fn peak_reset() -> usize {
    let l = live();
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn total() -> usize {
    TOTAL.load(Relaxed)
}

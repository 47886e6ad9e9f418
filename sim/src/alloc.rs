//! Counting allocator: heap size and peak of the simulated process, and a cap
//! on a single allocation (an allocation above the cap fails, as it would on a
//! machine without that much memory).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static REFUSED: AtomicUsize = AtomicUsize::new(0);

// what the simulator itself allocates (the contents of its disk) does not count
fn add(n: usize) {
    if crate::simos::inside() {
        return;
    }
    let c = CUR.fetch_add(n as isize, Relaxed) + n as isize;
    PEAK.fetch_max(c, Relaxed);
}
fn sub(n: usize) {
    if !crate::simos::inside() {
        CUR.fetch_sub(n as isize, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::simos::tick();
        if l.size() > CAP.load(Relaxed) {
            REFUSED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP.load(Relaxed) {
            REFUSED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        sub(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::simos::tick();
        if n > CAP.load(Relaxed) {
            REFUSED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n > l.size() {
                add(n - l.size());
            } else {
                sub(l.size() - n);
            }
        }
        q
    }
}

/// meaningful as a difference only
pub fn current() -> isize {
    CUR.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(CUR.load(Relaxed), Relaxed);
}
pub fn peak() -> isize {
    PEAK.load(Relaxed)
}
pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed);
}
pub fn refused() -> usize {
    REFUSED.load(Relaxed)
}

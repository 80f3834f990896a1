//! Allocation guard: while armed, a single request above the limit is a finding (the process reports the
//! current case and exits with status 77 instead of letting the machine run out of memory).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Guard;
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static CASE: AtomicUsize = AtomicUsize::new(0);
pub static SUB: AtomicUsize = AtomicUsize::new(0);
fn check(n: usize) {
    let l = LIMIT.load(Relaxed);
    if n > l {
        LIMIT.store(usize::MAX, Relaxed);
        eprintln!("HUGE-ALLOCATION bytes={n} limit={l} case={} sub={}", CASE.load(Relaxed), SUB.load(Relaxed));
        std::process::exit(77);
    }
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { check(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { check(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { check(n); System.realloc(p, l, n) }
}
pub fn armed<T>(limit: usize, f: impl FnOnce() -> T) -> T {
    LIMIT.store(limit, Relaxed);
    let r = f();
    LIMIT.store(usize::MAX, Relaxed);
    r
}

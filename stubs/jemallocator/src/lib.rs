//! Stand-in for jemallocator inside the verification build: forwards to the system allocator
//! (saves the C build of jemalloc) and lets a checker meter and cap allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Jemalloc;

/// Largest single request seen since the last reset.
pub static LARGEST: AtomicUsize = AtomicUsize::new(0);
/// Requests above this many bytes fail (the allocation returns null, so the process aborts
/// unless the caller handles it). 0 = no cap.
pub static CAP: AtomicUsize = AtomicUsize::new(0);

#[inline]
fn note(n: usize) -> bool {
    if n > 1 << 16 {
        LARGEST.fetch_max(n, Relaxed);
        let cap = CAP.load(Relaxed);
        if cap != 0 && n > cap {
            return false;
        }
    }
    true
}

unsafe impl GlobalAlloc for Jemalloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

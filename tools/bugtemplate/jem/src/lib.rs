//! Stand-in for jemallocator (avoids its C build): the system allocator.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Jemalloc;
unsafe impl GlobalAlloc for Jemalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}

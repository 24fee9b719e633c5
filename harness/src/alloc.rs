//! The allocator of the harnesses: the system's, with a limit on single requests when armed.
use crate::vx;
use std::alloc::{GlobalAlloc, Layout, System};

struct Limited;
static mut LIMIT: usize = usize::MAX;

/// requests above n bytes are violations from here on
pub fn arm(n: usize) {
    unsafe { LIMIT = n }
}
pub fn disarm() {
    unsafe { LIMIT = usize::MAX }
}
fn guard(n: usize) {
    unsafe {
        if LIMIT != usize::MAX {
            vx::check(n <= LIMIT, "memory requested is bounded by the bytes received");
        }
    }
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Limited = Limited;

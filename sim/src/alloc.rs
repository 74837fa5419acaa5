//! Allocation points double as scheduling points when a plan asks for it.
use crate::os;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;
#[inline]
fn point() {
    if os::ALLOC_POINTS.load(std::sync::atomic::Ordering::Relaxed) != 0 && os::me().is_some() {
        os::alloc_point();
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}

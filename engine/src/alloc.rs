//! Allocator that fills fresh and freed memory with recognisable garbage, so that reading memory
//! that was never written (or was freed) is visible: as a `Sym` without its tag, as an absurd
//! index, or as a wild pointer.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Poison;

const LIMIT: usize = 1 << 16;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size().min(LIMIT));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0x5A, l.size().min(LIMIT));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() && new > l.size() {
            std::ptr::write_bytes(q.add(l.size()), 0xA5, (new - l.size()).min(LIMIT));
        }
        q
    }
}

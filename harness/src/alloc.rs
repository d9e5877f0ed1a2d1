// A global allocator that fills every fresh block with a chosen byte, so that an element a routine
// forgot to write becomes visible (and differs between two runs with different fill bytes).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU8, Ordering};

pub static FILL: AtomicU8 = AtomicU8::new(0xFF);

pub struct Poison;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, FILL.load(Ordering::Relaxed), l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            System.dealloc(p, l);
        }
        q
    }
}

pub fn fill(b: u8) {
    FILL.store(b, Ordering::Relaxed)
}

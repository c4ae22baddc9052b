//! Counting allocator: the bytes each thread has allocated and not freed (a case runs on one
//! thread, so the difference between two moments of a case is what it holds more).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    if n > 0 {
        let _ = ALLOCS.try_with(|l| l.set(l.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(-(l.size() as i64));
        add(new as i64);
        System.realloc(p, l, new)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Bytes this thread holds.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Allocations this thread made so far.
pub fn allocs() -> u64 {
    ALLOCS.with(|l| l.get())
}

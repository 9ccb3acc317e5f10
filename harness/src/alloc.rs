//! Counts what a thread allocates, and its processor time: deterministic measures of work.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn note(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}

/// bytes and calls so far, in this thread
pub fn counted() -> (u64, u64) {
    (BYTES.with(|b| b.get()), CALLS.with(|c| c.get()))
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// processor seconds used by this thread
pub fn cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.ns as f64 / 1e9
}

//! Counting allocator: live bytes of the process and of the current thread, with a hard ceiling so
//! that a runaway allocation in the code under test ends the worker instead of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
pub const EXIT_MEMORY: i32 = 78;

thread_local! {
    static TLIVE: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let live = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    let _ = TLIVE.try_with(|c| c.set(c.get() + n));
    if n > 0 && live > LIMIT.load(Ordering::Relaxed) {
        // No allocation, no unwinding from here.
        extern "C" {
            fn _exit(code: i32) -> !;
        }
        unsafe { _exit(EXIT_MEMORY) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn thread_live() -> i64 {
    TLIVE.with(|c| c.get())
}

//! Bytes each thread has allocated and not given back.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

struct Counting;

fn change(n: isize) {
    // (a thread that is being taken down has no counters any more)
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // the old and the new block may exist at once
        change(n as isize);
        change(-(l.size() as isize));
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size() as isize);
        System.alloc_zeroed(l)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
/// the most there has been since the last call of this function
pub fn peak() -> isize {
    PEAK.with(|p| p.replace(live()))
}

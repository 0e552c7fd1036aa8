//! Allocator wrapper: an execution that allocates without bound is stopped (abort), so that the
//! supervising process can attribute it to the execution instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guard;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
const LIMIT: isize = 1 << 30;

pub fn reset() {
    let _ = LIVE.try_with(|l| l.set(0));
}
#[inline]
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > LIMIT {
            let m = b"allocation limit of one execution exceeded\n";
            unsafe {
                libc::write(2, m.as_ptr().cast(), m.len());
                libc::abort();
            }
        }
    });
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

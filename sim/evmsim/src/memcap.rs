//! The simulated machine of a lying prover has little memory: an allocation above the cap fails,
//! which ends its execution with a panic.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static CAP: Cell<usize> = const { Cell::new(usize::MAX) }; }
pub struct Capped;
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP.get() { std::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP.get() { std::ptr::null_mut() } else { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CAP.get() { std::ptr::null_mut() } else { System.realloc(p, l, n) }
    }
}
pub fn with_cap<T>(cap: usize, f: impl FnOnce() -> T) -> T {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            CAP.set(self.0)
        }
    }
    let _r = Reset(CAP.replace(cap));
    f()
}
pub fn install() {
    std::alloc::set_alloc_error_hook(|l| {
        CAP.set(usize::MAX);
        panic!("allocation of {} bytes refused by the simulated machine", l.size())
    });
}

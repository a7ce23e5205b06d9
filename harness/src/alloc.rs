//! The allocator of the monitors. It measures what a thread allocates (current and peak),
//! and keeps the (16 MiB) decompression buffers that banyan allocates for every block
//! around, so that the monitors do not spend most of their time in page faults.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};
pub struct Keep;
#[cfg(not(feature = "asan"))]
const BIG: usize = 1 << 20;
thread_local!(static CUR: Cell<isize> = const { Cell::new(0) });
thread_local!(static PEAK: Cell<isize> = const { Cell::new(0) });
#[cfg(not(feature = "asan"))]
thread_local!(static FREE: Cell<[(usize, usize); 2]> = const { Cell::new([(0, 0); 2]) });
#[inline]
fn track(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}
/// run `f` and return the largest amount of memory (in bytes) that this thread had allocated
/// while it ran, in addition to what it had before
pub fn peak<X>(f: impl FnOnce() -> X) -> (X, usize) {
    let c0 = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(c0));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - c0).max(0) as usize)
}
unsafe impl GlobalAlloc for Keep {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        track(l.size() as isize);
        #[cfg(not(feature = "asan"))]
        if l.size() >= BIG && l.align() <= 16 {
            if let Ok(Some(p)) = FREE.try_with(|f| {
                let mut a = f.get();
                for x in a.iter_mut() {
                    if x.1 == l.size() {
                        let p = x.0 as *mut u8;
                        *x = (0, 0);
                        f.set(a);
                        return Some(p);
                    }
                }
                None
            }) {
                return p;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        track(-(l.size() as isize));
        #[cfg(not(feature = "asan"))]
        if l.size() == 16 << 20 && l.align() <= 16 {
            if let Ok(true) = FREE.try_with(|f| {
                let mut a = f.get();
                for x in a.iter_mut() {
                    if x.1 == 0 {
                        *x = (p as usize, l.size());
                        f.set(a);
                        return true;
                    }
                }
                false
            }) {
                return;
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        track(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        track(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Keep = Keep;

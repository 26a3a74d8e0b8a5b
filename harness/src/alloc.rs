//! Counting global allocator: per-thread live, peak, total bytes and number of allocations. Allocations that would take
//! one thread over a cap end the process with exit code 97, so that a memory bomb is a verdict and not an OOM kill.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

const CAP: i64 = 3_000_000_000;

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        if v > CAP {
            let m = b"mqttmon: allocation cap exceeded\n";
            unsafe {
                write(super::mon::out_fd(), m.as_ptr().cast(), m.len());
                _exit(97)
            }
        }
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = COUNT.try_with(|t| t.set(t.get() + 1));
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Both blocks may be live for a moment: count the worst case
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    /// Highest number of bytes live above the starting point
    pub peak: i64,
    /// Bytes allocated in total
    pub total: u64,
    pub count: u64,
    /// Bytes still live at the end
    pub live: i64,
}

/// What this thread allocates during `f`.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Use) {
    let live = LIVE.with(|x| x.get());
    let total = TOTAL.with(|x| x.get());
    let count = COUNT.with(|x| x.get());
    PEAK.with(|x| x.set(live));
    let r = f();
    let u = Use {
        peak: PEAK.with(|x| x.get()) - live,
        total: TOTAL.with(|x| x.get()) - total,
        count: COUNT.with(|x| x.get()) - count,
        live: LIVE.with(|x| x.get()) - live,
    };
    (r, u)
}

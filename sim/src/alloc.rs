//! Global allocator seam: accounting of what library calls allocate, a yield
//! point for the scheduler at every allocation a scheduled caller makes, and a
//! deterministic budget that ends a runaway call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct A;

thread_local! {
    // >0: the thread is inside a library call
    static LIB: Cell<u32> = const { Cell::new(0) };
    // >0: harness code runs (inside a callback of a library call)
    static HARNESS: Cell<u32> = const { Cell::new(0) };
    // scheduler hook armed for this thread
    static YIELD: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

/// Bytes / number of allocations one library call may make before the run is ended.
pub static BYTES_BUDGET: AtomicU64 = AtomicU64::new(8 << 30);
pub static LIVE_BUDGET: AtomicU64 = AtomicU64::new(1 << 30);
pub static COUNT_BUDGET: AtomicU64 = AtomicU64::new(400_000_000);

/// processor time of one library call
pub const TICKS_BUDGET: u64 = 6_000_000_000;

pub const EXIT_BUDGET: i32 = 77;

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}

pub struct Harness(u64);
pub fn harness() -> Harness {
    let _ = HARNESS.try_with(|h| h.set(h.get() + 1));
    Harness(crate::clock::now())
}
impl Drop for Harness {
    fn drop(&mut self) {
        let _ = HARNESS.try_with(|h| h.set(h.get() - 1));
        if crate::clock::RUNS {
            crate::clock::back(self.0);
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: u64,
    pub total: u64,
    /// processor time, see clock.rs
    pub ticks: u64,
}

/// Saved bookkeeping of an enclosing library call (re-entrant calls nest).
pub struct Outer(i64, i64, u64, u64, u32, u64);

pub fn lib_enter() -> Outer {
    let o = Outer(
        LIVE.with(|c| c.replace(0)),
        PEAK.with(|c| c.replace(0)),
        TOTAL.with(|c| c.replace(0)),
        COUNT.with(|c| c.replace(0)),
        HARNESS.with(|c| c.replace(0)),
        crate::clock::now(),
    );
    LIB.with(|l| l.set(l.get() + 1));
    crate::clock::limit(crate::clock::now() + TICKS_BUDGET);
    o
}
pub fn lib_leave(o: Outer) -> Usage {
    let ticks = crate::clock::now() - o.5;
    LIB.with(|l| l.set(l.get() - 1));
    if LIB.with(|l| l.get()) == 0 {
        crate::clock::limit(u64::MAX);
    }
    let u = Usage {
        peak: PEAK.with(|c| c.get()).max(0) as u64,
        total: TOTAL.with(|c| c.get()),
        ticks,
    };
    LIVE.with(|c| c.set(o.0));
    PEAK.with(|c| c.set(o.1));
    TOTAL.with(|c| c.set(o.2));
    COUNT.with(|c| c.set(o.3));
    HARNESS.with(|c| c.set(o.4));
    u
}
/// Arms or disarms the allocation yield point of this thread.
pub fn arm(on: bool) {
    YIELD.with(|y| y.set(on));
}

#[inline]
fn active() -> bool {
    LIB.try_with(|l| l.get() > 0).unwrap_or(false)
        && HARNESS.try_with(|h| h.get() == 0).unwrap_or(false)
}

#[cold]
fn over(what: &[u8]) -> ! {
    unsafe {
        write(2, what.as_ptr().cast(), what.len());
        _exit(EXIT_BUDGET)
    }
}

#[inline]
fn on_alloc(n: usize) {
    if !active() {
        return;
    }
    let live = LIVE.with(|c| {
        c.set(c.get() + n as i64);
        c.get()
    });
    PEAK.with(|c| {
        if live > c.get() {
            c.set(live)
        }
    });
    let total = TOTAL.with(|c| {
        c.set(c.get() + n as u64);
        c.get()
    });
    let count = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if live > LIVE_BUDGET.load(Relaxed) as i64 {
        over(b"BUDGET live bytes\n");
    }
    if total > BYTES_BUDGET.load(Relaxed) {
        over(b"BUDGET total bytes\n");
    }
    if count > COUNT_BUDGET.load(Relaxed) {
        over(b"BUDGET allocations\n");
    }
    if YIELD.with(|y| y.get()) {
        let _h = harness();
        crate::sched::yield_point(crate::sched::At::Alloc);
    }
}
#[inline]
fn on_free(n: usize) {
    if active() {
        LIVE.with(|c| c.set(c.get() - n as i64));
    }
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // count as one allocation of the new size, freeing the old
        on_alloc(n);
        on_free(l.size());
        System.realloc(p, l, n)
    }
}

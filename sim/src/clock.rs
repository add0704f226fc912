//! The simulated processor's clock. Built with feature `clock` (see build.sh)
//! every basic block of the library, of std and of all dependencies ticks it
//! once, and every 16 bytes moved, compared or filled tick it once; without the
//! feature it stands still. Time is thus a function of what is executed, and of
//! nothing else.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static TICKS: AtomicU64 = AtomicU64::new(0);
/// ticks at which a runaway call is ended
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

pub fn now() -> u64 {
    TICKS.load(Relaxed)
}
/// Turns the clock back by what the harness used.
pub fn back(to: u64) {
    TICKS.store(to, Relaxed)
}
pub fn limit(ticks: u64) {
    LIMIT.store(ticks, Relaxed)
}
pub const RUNS: bool = cfg!(feature = "clock");

#[cfg(feature = "clock")]
mod seam {
    use super::*;
    extern "C" {
        fn _exit(code: i32) -> !;
        fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    }

    #[inline(always)]
    fn tick(n: u64) {
        let t = TICKS.load(Relaxed).wrapping_add(n);
        TICKS.store(t, Relaxed);
        if t > LIMIT.load(Relaxed) {
            unsafe {
                write(2, b"BUDGET processor time\n".as_ptr(), 22);
                _exit(crate::alloc::EXIT_BUDGET)
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
        tick(1)
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

    unsafe fn forward(d: *mut u8, s: *const u8, n: usize) {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack));
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        tick(n as u64 / 16);
        forward(d, s, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        tick(n as u64 / 16);
        if (d as usize).wrapping_sub(s as usize) >= n {
            forward(d, s, n);
        } else {
            // overlapping: from the end, eight bytes at a time
            let mut i = n;
            while i % 8 != 0 {
                i -= 1;
                d.add(i).write_volatile(s.add(i).read_volatile());
            }
            while i != 0 {
                i -= 8;
                let x = s.add(i).cast::<u64>().read_unaligned();
                d.add(i).cast::<u64>().write_unaligned(x);
            }
        }
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        tick(n as u64 / 16);
        std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack));
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            if x != y {
                tick(i as u64 / 16);
                return i32::from(x) - i32::from(y);
            }
            i += 1;
        }
        tick(n as u64 / 16);
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}

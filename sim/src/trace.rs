//! The traced configuration: the compiler reports every load and store of the library, so that a
//! thread can be pre-empted between any two memory accesses of a library call, with or without a
//! callback, and the addresses it touches are known.

use crate::sched;
use crate::sim::{choose, fault, flag};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const ON: bool = cfg!(traced);

/// This thread is inside the library.
#[thread_local]
static mut ARMED: bool = false;
/// accesses left before the next pre-emption
static LEFT: AtomicU64 = AtomicU64::new(0);
static BITS: AtomicUsize = AtomicUsize::new(0);
/// accesses seen, pre-emptions between them
static SEEN: AtomicU64 = AtomicU64::new(0);
/// the storage the threads share
static WATCH: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];

/// What a thread may touch of the watched storage.
#[derive(Clone, Copy)]
pub struct Own {
    pub lo: usize,
    pub hi: usize,
    pub read_only: bool,
}
#[thread_local]
static mut OWN: Own = Own { lo: 0, hi: usize::MAX, read_only: false };

/// where the stack of this thread's program begins
#[thread_local]
static mut TOP: usize = 0;
pub fn stack_begins() {
    let here = 0u8;
    unsafe { TOP = &here as *const u8 as usize }
}

pub fn own<T>(part: &[T], read_only: bool) {
    let r = part.as_ptr_range();
    unsafe { OWN = Own { lo: r.start as usize, hi: r.end as usize, read_only } }
}
/// A thread starts that holds no part (yet).
pub fn own_anything() {
    unsafe { OWN = Own { lo: 0, hi: usize::MAX, read_only: false } }
}

/// Starts a threaded phase over `shared`.
pub fn begin<T>(shared: &[T]) {
    if !ON {
        return;
    }
    let r = shared.as_ptr_range();
    WATCH[0].store(r.start as usize, Relaxed);
    WATCH[1].store(r.end as usize, Relaxed);
    own_anything();
    BITS.store(choose(11), Relaxed);
    SEEN.store(0, Relaxed);
    next();
}
pub fn end() {
    if WATCH[1].load(Relaxed) != 0 {
        crate::ev!("{} accesses of the library", SEEN.load(Relaxed));
    }
    WATCH[0].store(0, Relaxed);
    WATCH[1].store(0, Relaxed);
}
fn next() {
    let b = BITS.load(Relaxed);
    LEFT.store(if b == 0 { u64::MAX } else { 1 + choose(1 << b) as u64 }, Relaxed);
}

/// The simulator runs: no pre-emption until this goes.
pub struct Quiet(bool);
#[inline]
pub fn quiet() -> Quiet {
    if !ON {
        return Quiet(false);
    }
    unsafe {
        let was = ARMED;
        ARMED = false;
        Quiet(was)
    }
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        if ON && self.0 {
            unsafe { ARMED = true }
        }
    }
}

/// Calls the library.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    if !ON || !sched::active() {
        return f();
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            unsafe { ARMED = false }
        }
    }
    let _off = Off;
    unsafe { ARMED = true }
    f()
}

#[cold]
fn hit(a: usize, n: usize, store: bool) {
    let here = 0u8;
    if a > &here as *const u8 as usize && a < unsafe { TOP } {
        // its own stack
        return;
    }
    SEEN.fetch_add(1, Relaxed);
    if a < WATCH[1].load(Relaxed) && a + n > WATCH[0].load(Relaxed) {
        let o = unsafe { OWN };
        if a < o.lo || a + n > o.hi {
            let (w, what) = (WATCH[0].load(Relaxed), if store { "writes" } else { "reads" });
            flag(
                &["C12"],
                "a thread touches another's part",
                format!("thread {} holds bytes {}..{} of the storage and {} {} bytes at {}", sched::me(), o.lo.wrapping_sub(w), o.hi.wrapping_sub(w), what, n, a.wrapping_sub(w) as isize),
            );
        } else if store && o.read_only {
            flag(&["C12"], "a reader writes", format!("thread {} writes {} bytes at {} of the storage it shares", sched::me(), n, a - WATCH[0].load(Relaxed)));
        }
    }
    let left = LEFT.load(Relaxed);
    if left > 1 {
        LEFT.store(left - 1, Relaxed);
        return;
    }
    next();
    if sched::preempt() {
        fault("preemption_inside_library");
    }
}

macro_rules! hooks {
    ($($name:ident $n:expr, $store:expr;)*) => {$(
        #[cfg(traced)]
        #[no_mangle]
        pub extern "C" fn $name(a: usize) {
            unsafe {
                // this function is not instrumented, everything it calls is
                if ARMED {
                    ARMED = false;
                    hit(a, $n, $store);
                    ARMED = true;
                }
            }
        }
    )*};
}
hooks! {
    __sanitizer_cov_load1 1, false;
    __sanitizer_cov_load2 2, false;
    __sanitizer_cov_load4 4, false;
    __sanitizer_cov_load8 8, false;
    __sanitizer_cov_load16 16, false;
    __sanitizer_cov_store1 1, true;
    __sanitizer_cov_store2 2, true;
    __sanitizer_cov_store4 4, true;
    __sanitizer_cov_store8 8, true;
    __sanitizer_cov_store16 16, true;
}

/// Copies that the compiler leaves to the C library.
#[cfg(all(traced, target_arch = "x86_64"))]
mod copies {
    use super::{hit, ARMED};
    use std::arch::asm;

    #[inline(always)]
    unsafe fn touched(src: usize, dst: usize, n: usize) {
        if ARMED && n > 0 {
            ARMED = false;
            if src != 0 {
                hit(src, n, false);
            }
            hit(dst, n, true);
            ARMED = true;
        }
    }
    #[inline(always)]
    unsafe fn up(d: *mut u8, s: *const u8, n: usize) {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        touched(s as usize, d as usize, n);
        up(d, s, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        touched(s as usize, d as usize, n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            up(d, s, n);
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        touched(0, d as usize, n);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }
}

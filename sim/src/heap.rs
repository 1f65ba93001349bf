//! The simulated heap: every allocation with alignment 32 (that is: storage of `Tok` elements in a
//! `Vec`) gets red zones, moves on every reallocation, is poisoned and quarantined when freed, and
//! fails when the simulator says so. Everything else goes to the system allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Heap;
#[global_allocator]
static HEAP: Heap = Heap;

const ZONE: usize = 64;
const MAGIC: u64 = 0x51b0_0c5e_a11c_0de5;
static FAIL: AtomicI64 = AtomicI64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);
static MOVED: AtomicU64 = AtomicU64::new(0);
static ERR: AtomicU32 = AtomicU32::new(0);
const Q: usize = 128;
struct Quarantine {
    n: usize,
    at: [(usize, usize); Q],
}
static QUARANTINE: Mutex<Quarantine> = Mutex::new(Quarantine { n: 0, at: [(0, 0); Q] });

/// Allocations of the run abut an inaccessible page.
pub static FENCED: AtomicBool = AtomicBool::new(false);

/// The n-th simulated allocation from now fails (0 = disarm).
pub fn arm(n: i64) {
    FAIL.store(n, SeqCst);
}
pub fn error() -> u32 {
    ERR.load(SeqCst)
}
pub fn describe(e: u32) -> &'static str {
    match e {
        1 => "write before the start of an allocation",
        2 => "write past the end of an allocation",
        3 => "write to freed storage",
        4 => "invalid free",
        _ => "?",
    }
}
fn err(e: u32) {
    let _ = ERR.compare_exchange(0, e, SeqCst, SeqCst);
}
/// (failed, moved) since the last reset
pub fn counts() -> (u64, u64) {
    (FAILED.load(SeqCst), MOVED.load(SeqCst))
}
pub fn reset() {
    FAIL.store(0, SeqCst);
    FAILED.store(0, SeqCst);
    MOVED.store(0, SeqCst);
    ERR.store(0, SeqCst);
    FENCED.store(false, SeqCst);
    crate::fence::reset();
}
/// Checks and releases the quarantine.
pub fn finish() {
    let mut q = QUARANTINE.lock().unwrap_or_else(|e| e.into_inner());
    let n = q.n;
    for k in 0..n {
        unsafe { release(q.at[k]) }
    }
    q.n = 0;
}

unsafe fn release((raw, size): (usize, usize)) {
    let raw = raw as *mut u8;
    let pay = raw.add(ZONE);
    for i in 0..size {
        if *pay.add(i) != 0xDD {
            err(3);
            break;
        }
    }
    System.dealloc(raw, Layout::from_size_align_unchecked(size + 2 * ZONE, 64));
}

unsafe fn sim_alloc(size: usize) -> *mut u8 {
    let _q = crate::trace::quiet();
    if FAIL.load(SeqCst) > 0 && FAIL.fetch_sub(1, SeqCst) == 1 {
        FAILED.fetch_add(1, SeqCst);
        return std::ptr::null_mut();
    }
    if FENCED.load(SeqCst) {
        if let Some((p, _)) = crate::fence::take(size, true) {
            return p;
        }
    }
    let raw = System.alloc(Layout::from_size_align_unchecked(size + 2 * ZONE, 64));
    if raw.is_null() {
        return raw;
    }
    (raw as *mut u64).write(MAGIC);
    (raw as *mut u64).add(1).write(size as u64);
    raw.add(16).write_bytes(0xA5, ZONE - 16);
    raw.add(ZONE).write_bytes(0xCD, size);
    raw.add(ZONE + size).write_bytes(0xA5, ZONE);
    raw.add(ZONE)
}

unsafe fn sim_free(p: *mut u8, size: usize) {
    let _q = crate::trace::quiet();
    if let Some(i) = crate::fence::slot_of(p) {
        let (before, after) = crate::fence::clean(p, size, i);
        if !before {
            err(1);
        }
        if !after {
            err(2);
        }
        crate::fence::kill(i);
        return;
    }
    let raw = p.sub(ZONE);
    if (raw as *mut u64).read() != MAGIC || (raw as *mut u64).add(1).read() != size as u64 {
        err(4);
        return;
    }
    for i in 16..ZONE {
        if *raw.add(i) != 0xA5 {
            err(1);
        }
    }
    for i in 0..ZONE {
        if *p.add(size + i) != 0xA5 {
            err(2);
        }
    }
    p.write_bytes(0xDD, size);
    (raw as *mut u64).write(0);
    let mut q = QUARANTINE.lock().unwrap_or_else(|e| e.into_inner());
    if q.n == Q {
        let first = q.at[0];
        q.at.copy_within(1.., 0);
        q.n -= 1;
        release(first);
    }
    let n = q.n;
    q.at[n] = (raw as usize, size);
    q.n += 1;
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() != 32 {
            return System.alloc(l);
        }
        sim_alloc(l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() != 32 {
            return System.dealloc(p, l);
        }
        sim_free(p, l.size())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.align() != 32 {
            return System.realloc(p, l, new);
        }
        let n = sim_alloc(new);
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            MOVED.fetch_add(1, SeqCst);
            sim_free(p, l.size());
        }
        n
    }
}

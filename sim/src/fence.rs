//! Storage that abuts an inaccessible page, before its first byte or after its last: touching
//! anything beyond it, reading included, kills the process. Freed storage becomes inaccessible as a
//! whole until the run ends.

use std::sync::Mutex;

const PAGE: usize = 4096;
/// (pages, number of slots); each slot is preceded by an inaccessible page
const CLASSES: [(usize, usize); 3] = [(1, 256), (4, 96), (16, 48)];
const SLOTS: usize = 256 + 96 + 48;
const FREE: u8 = 0;
const USED: u8 = 1;
const DEAD: u8 = 2;

struct Fences {
    base: usize,
    st: [u8; SLOTS],
    /// anything but FREE since the last reset
    touched: bool,
}
static F: Mutex<Fences> = Mutex::new(Fences { base: 0, st: [FREE; SLOTS], touched: false });

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

fn lock() -> std::sync::MutexGuard<'static, Fences> {
    F.lock().unwrap_or_else(|e| e.into_inner())
}

/// (offset of the first usable byte, usable bytes)
fn slot(i: usize) -> (usize, usize) {
    let (mut off, mut k) = (0, i);
    for (pages, n) in CLASSES {
        let each = (pages + 1) * PAGE;
        if k < n {
            return (off + k * each + PAGE, pages * PAGE);
        }
        off += n * each;
        k -= n;
    }
    unreachable!()
}
fn total() -> usize {
    CLASSES.iter().map(|(p, n)| (p + 1) * n * PAGE).sum::<usize>() + PAGE
}

impl Fences {
    fn open(&mut self) -> bool {
        if self.base == 0 {
            unsafe {
                let p = mmap(std::ptr::null_mut(), total(), 0, 0x22, -1, 0);
                if p as isize == -1 {
                    return false;
                }
                self.base = p as usize;
                for i in 0..SLOTS {
                    let (o, n) = slot(i);
                    mprotect(p.add(o), n, 3);
                }
            }
        }
        true
    }
}

/// Some storage of `size` bytes and its slot.
pub fn take(size: usize, at_end: bool) -> Option<(*mut u8, usize)> {
    let mut f = lock();
    if !f.open() {
        return None;
    }
    let mut first = 0;
    for (pages, n) in CLASSES {
        if size <= pages * PAGE {
            let i = (first..first + n).find(|i| f.st[*i] == FREE)?;
            f.st[i] = USED;
            f.touched = true;
            let (o, len) = slot(i);
            let p = (f.base + o) as *mut u8;
            unsafe {
                p.write_bytes(0xA5, len);
                return Some((if at_end { p.add(len - size) } else { p }, i));
            }
        }
        first += n;
    }
    None
}

/// The slot of storage that is not empty.
pub fn slot_of(p: *mut u8) -> Option<usize> {
    let f = lock();
    let x = (p as usize).wrapping_sub(f.base);
    if f.base == 0 || x >= total() {
        return None;
    }
    let (mut off, mut first) = (0, 0);
    for (pages, n) in CLASSES {
        let each = (pages + 1) * PAGE;
        if x < off + n * each {
            return Some(first + (x - off) / each);
        }
        off += n * each;
        first += n;
    }
    None
}

/// Nothing in the slot but the storage itself has been written to: (before, after).
pub fn clean(p: *mut u8, size: usize, i: usize) -> (bool, bool) {
    let base = lock().base;
    let (o, len) = slot(i);
    let start = base + o;
    let all = |a: usize, b: usize| {
        let v = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
        let (x, y, z) = unsafe { v.align_to::<u64>() };
        x.iter().chain(z).all(|b| *b == 0xA5) && y.iter().all(|w| *w == 0xA5A5_A5A5_A5A5_A5A5)
    };
    (all(start, p as usize), all(p as usize + size, start + len))
}

/// The storage is not needed any more.
pub fn give(i: usize) {
    lock().st[i] = FREE;
}

/// From now on the storage is inaccessible.
pub fn kill(i: usize) {
    let mut f = lock();
    f.st[i] = DEAD;
    let (o, len) = slot(i);
    unsafe {
        mprotect((f.base + o) as *mut u8, len, 0);
    }
}

/// Everything is free again.
pub fn reset() {
    let mut f = lock();
    if !f.touched {
        return;
    }
    f.touched = false;
    for i in 0..SLOTS {
        if f.st[i] == DEAD {
            let (o, len) = slot(i);
            unsafe {
                mprotect((f.base + o) as *mut u8, len, 3);
            }
        }
        f.st[i] = FREE;
    }
}

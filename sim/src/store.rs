//! Storage owned by the simulator.

use crate::elem::{ids, Elem};
use crate::ev;
use crate::sim::{self, flag};
use indexing::container_traits::*;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

pub const G: usize = 3;

/// Elements between guard elements: `[guards | elements | guards]`.
pub struct Arena<E: Elem> {
    buf: Vec<E>,
    len: usize,
    guard_ids: Vec<u32>,
    /// instead of `buf`: storage that abuts an inaccessible page
    fence: Option<(*mut E, usize, bool)>,
}
unsafe impl<E: Elem> Send for Arena<E> {}
unsafe impl<E: Elem> Sync for Arena<E> {}
impl<E: Elem> Drop for Arena<E> {
    fn drop(&mut self) {
        if let Some((p, slot, _)) = self.fence.take() {
            unsafe {
                std::ptr::drop_in_place(std::ptr::slice_from_raw_parts_mut(p, self.len));
            }
            crate::fence::give(slot);
        }
    }
}

impl<E: Elem> Arena<E> {
    pub fn new(keys: &[i32]) -> Self {
        match sim::choose(5) {
            4 => return Self::fenced(keys, false),
            3 => return Self::fenced(keys, true),
            _ => Self::guarded(keys),
        }
    }
    /// Ends at an inaccessible page, if there is one left.
    pub fn walled(keys: &[i32]) -> Self {
        Self::fenced(keys, true)
    }
    pub fn is_walled(&self) -> bool {
        matches!(self.fence, Some((_, _, true)))
    }
    fn fenced(keys: &[i32], at_end: bool) -> Self {
        match crate::fence::take(keys.len() * std::mem::size_of::<E>(), at_end) {
            None => Self::guarded(keys),
            Some((p, slot)) => {
                sim::probe(if at_end { "storage ends at an inaccessible page" } else { "storage starts at an inaccessible page" });
                let p = p as *mut E;
                for (i, k) in keys.iter().enumerate() {
                    unsafe { p.add(i).write(E::new(*k)) }
                }
                Arena { buf: Vec::new(), len: keys.len(), guard_ids: Vec::new(), fence: Some((p, slot, at_end)) }
            }
        }
    }
    fn guarded(keys: &[i32]) -> Self {
        // guard keys are extreme on either side so that they attract sloppy comparisons
        let mut buf = Vec::with_capacity(keys.len() + 2 * G);
        let mut guard_ids = Vec::new();
        for _ in 0..G {
            let e = E::new(i32::MAX - 7);
            guard_ids.push(e.id());
            buf.push(e);
        }
        for &k in keys {
            buf.push(E::new(k));
        }
        for _ in 0..G {
            let e = E::new(i32::MIN + 7);
            guard_ids.push(e.id());
            buf.push(e);
        }
        Arena { buf, len: keys.len(), guard_ids, fence: None }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn slice(&self) -> &[E] {
        match self.fence {
            Some((p, _, _)) => unsafe { std::slice::from_raw_parts(p, self.len) },
            None => &self.buf[G..G + self.len],
        }
    }
    pub fn slice_mut(&mut self) -> &mut [E] {
        match self.fence {
            Some((p, _, _)) => unsafe { std::slice::from_raw_parts_mut(p, self.len) },
            None => &mut self.buf[G..G + self.len],
        }
    }
    pub fn ids(&self) -> Vec<u32> {
        ids(self.slice())
    }
    pub fn guards_ok(&self) -> bool {
        if let Some((p, slot, _)) = self.fence {
            return crate::fence::clean(p as *mut u8, self.len * std::mem::size_of::<E>(), slot) == (true, true);
        }
        let n = self.buf.len();
        n == self.len + 2 * G
            && (0..G).all(|i| self.buf[i].id() == self.guard_ids[i])
            && (0..G).all(|i| self.buf[n - G + i].id() == self.guard_ids[G + i])
    }
    pub fn check_guards(&self, what: &str) {
        if !self.guards_ok() {
            flag(&["*"], "guard", format!("{}: memory outside the container was touched", what));
        }
    }
    /// The storage moves whenever it grows.
    fn insert(&mut self, i: usize, e: E) {
        if let Some((p, slot, at_end)) = self.fence {
            let Some((q, new)) = crate::fence::take((self.len + 1) * std::mem::size_of::<E>(), at_end) else {
                // no more fences: continue behind guards
                let mut g = Self::guarded(&[]);
                unsafe {
                    for k in 0..self.len {
                        g.buf.insert(G + k, p.add(k).read());
                    }
                }
                g.len = self.len;
                self.len = 0;
                *self = g;
                return self.insert(i, e);
            };
            let q = q as *mut E;
            unsafe {
                std::ptr::copy_nonoverlapping(p, q, i);
                q.add(i).write(e);
                std::ptr::copy_nonoverlapping(p.add(i), q.add(i + 1), self.len - i);
            }
            crate::fence::kill(slot);
            self.fence = Some((q, new, at_end));
            self.len += 1;
            return;
        }
        self.buf.insert(G + i, e);
        self.len += 1;
        self.relocate();
    }
    fn relocate(&mut self) {
        let mut nb = Vec::with_capacity(self.buf.len() + 1);
        nb.append(&mut self.buf);
        self.buf = nb;
    }
}

/// User-defined growable storage, fully under the simulator's control.
pub struct SimStore<E: Elem> {
    pub a: Arena<E>,
}

/// The next growth of a `SimStore` fails (before it changes anything).
pub static GROW_FAIL: AtomicBool = AtomicBool::new(false);

impl<E: Elem> SimStore<E> {
    pub fn new(keys: &[i32]) -> Self {
        SimStore { a: Arena::new(keys) }
    }
}

unsafe impl<E: Elem> Trustworthy for Arena<E> {
    type Item = E;
    fn base_len(&self) -> usize {
        self.len
    }
}
unsafe impl<E: Elem> Contiguous for Arena<E> {
    fn begin(&self) -> *const E {
        self.slice().as_ptr()
    }
    fn end(&self) -> *const E {
        self.slice().as_ptr_range().end
    }
    fn as_slice(&self) -> &[E] {
        self.slice()
    }
}
unsafe impl<E: Elem> ContiguousMut for Arena<E> {
    fn begin_mut(&mut self) -> *mut E {
        self.slice_mut().as_mut_ptr()
    }
    fn end_mut(&mut self) -> *mut E {
        self.slice_mut().as_mut_ptr_range().end
    }
    fn as_mut_slice(&mut self) -> &mut [E] {
        self.slice_mut()
    }
}
unsafe impl<E: Elem> GetUnchecked for Arena<E> {
    unsafe fn xget_unchecked(&self, i: usize) -> &E {
        if i >= self.len {
            flag(&["*"], "storage-oob", format!("storage was read at {} but has {} elements", i, self.len));
            std::panic::resume_unwind(Box::new(sim::Stop))
        }
        &self.slice()[i]
    }
}
unsafe impl<E: Elem> GetUncheckedMut for Arena<E> {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut E {
        if i >= self.len {
            flag(&["*"], "storage-oob", format!("storage was written at {} but has {} elements", i, self.len));
            std::panic::resume_unwind(Box::new(sim::Stop))
        }
        &mut self.slice_mut()[i]
    }
}
unsafe impl<E: Elem> FixedLength for Arena<E> {}

macro_rules! fwd {
    () => {
        fn begin(&self) -> *const E { self.a.begin() }
        fn end(&self) -> *const E { self.a.end() }
        fn as_slice(&self) -> &[E] { self.a.as_slice() }
    };
}
unsafe impl<E: Elem> Trustworthy for SimStore<E> {
    type Item = E;
    fn base_len(&self) -> usize {
        self.a.len
    }
}
unsafe impl<E: Elem> Contiguous for SimStore<E> {
    fwd!();
}
unsafe impl<E: Elem> ContiguousMut for SimStore<E> {
    fn begin_mut(&mut self) -> *mut E { self.a.begin_mut() }
    fn end_mut(&mut self) -> *mut E { self.a.end_mut() }
    fn as_mut_slice(&mut self) -> &mut [E] { self.a.as_mut_slice() }
}
unsafe impl<E: Elem> GetUnchecked for SimStore<E> {
    unsafe fn xget_unchecked(&self, i: usize) -> &E { self.a.xget_unchecked(i) }
}
unsafe impl<E: Elem> GetUncheckedMut for SimStore<E> {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut E { self.a.xget_unchecked_mut(i) }
}
unsafe impl<E: Elem> Pushable for SimStore<E> {
    fn push(&mut self, item: E) -> usize {
        if GROW_FAIL.swap(false, SeqCst) {
            drop(item);
            sim::crash("storage_grow_fail");
        }
        // this storage fails before it changes anything, or not at all
        crate::heap::arm(0);
        let i = self.a.len;
        self.a.insert(i, item);
        sim::fault("storage_relocated");
        i
    }
    unsafe fn insert_unchecked(&mut self, index: usize, item: E) {
        if index > self.a.len {
            flag(&["*"], "storage-oob", format!("insertion at {} into {} elements", index, self.a.len));
            drop(item);
            return;
        }
        if GROW_FAIL.swap(false, SeqCst) {
            drop(item);
            sim::crash("storage_grow_fail");
        }
        crate::heap::arm(0);
        self.a.insert(index, item);
        sim::fault("storage_relocated");
        ev!("store: inserted at {}", index);
    }
}

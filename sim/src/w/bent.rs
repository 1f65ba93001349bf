//! C01, C11, C13 with a client whose program should not have been admitted (see probes.py).
//!
//! The client reports what it got hold of; the simulator, which owns the storage, judges it.

use crate::elem::{sorted, Elem, Word};
use crate::ev;
use crate::sim::{attempt_any, check_stop, choose, flag, mark, nontrivial};
use crate::store::Arena;
use indexing::proof::Provable;
use indexing::{scope, Range};

mod probe {
    include!(env!("SHARED_PROBE"));
}

const ALL: &[&str] = &["C01", "C11", "C13"];

struct Place {
    at: usize,
    len: usize,
}
impl Place {
    fn of<T>(s: &[T]) -> Self {
        Place { at: s.as_ptr() as usize, len: s.len() }
    }
    fn judge(&self, size: usize, what: u8, a: usize, b: usize) -> Option<String> {
        let n = self.len;
        let end = self.at + n * size;
        match what {
            0 if a >= n => Some(format!("a dereferenceable position {} of {} elements", a, n)),
            1 if a > n => Some(format!("an edge position {} of {} elements", a, n)),
            2 if a > b || b > n => Some(format!("a range {}..{} of {} elements", a, b, n)),
            3 if a >= b || b > n => Some(format!("a non-empty range {}..{} of {} elements", a, b, n)),
            4 if a < self.at || a >= end => Some(format!("an element {} bytes from the start of {} elements", a.wrapping_sub(self.at) as isize, n)),
            5 if a < self.at || b > n || a + b * size > end => {
                Some(format!("{} elements {} bytes from the start of {} elements", b, a.wrapping_sub(self.at) as isize, n))
            }
            _ => None,
        }
    }
}
fn refuse(what: String) {
    ev!("the client got {}", what);
    flag(ALL, "a client was admitted that gets out of bounds", format!("the client got {}", what));
}

#[cfg(shape = "f")]
pub fn run() {
    const SIZE: usize = std::mem::size_of::<Word>();
    let keys = |n: usize| (0..n).map(|i| i as i32).collect::<Vec<i32>>();
    let n = 1 + choose(10);
    let m = choose(10);
    let mut a: Arena<Word> = Arena::new(&keys(n));
    let mut b: Arena<Word> = Arena::new(&keys(m));
    let (ids_a, ids_b) = (a.ids(), b.ids());
    let (pa, pb) = (Place::of(a.slice()), Place::of(b.slice()));
    // positions of the first container, in bounds of the first container
    let e = choose(n + 1);
    let lo = choose(n + 1);
    let hi = lo + choose(n - lo + 1);
    let mut keep = false;
    mark();
    ev!("{} and {} elements; edge {}, range {}..{}", n, m, e, lo, hi);
    nontrivial();
    let r = attempt_any(|| {
        scope(a.slice_mut(), |mut c| {
            scope(b.slice_mut(), |mut d| {
                let i = c.vet(choose(n)).unwrap();
                let full = c.range().nonempty().unwrap();
                let r = c.vet_range(lo..hi).unwrap();
                let e = c.vet_range(e..n).unwrap().first().no_proof();
                let r = indexing::proof::Provable::no_proof(r);
                probe::act(&mut c, &mut d, i, e, r, full, &mut |w, x, y| {
                    keep |= w == 12;
                    let t = if w < 6 { pa.judge(SIZE, w, x, y) } else { pb.judge(SIZE, w - 6, x, y) };
                    if let Some(t) = t {
                        refuse(t);
                    }
                });
            })
        })
    });
    if r.is_err() {
        ev!("the client was stopped by a panic");
    }
    check_stop();
    if keep && a.ids() != ids_a {
        refuse(format!("the first container through the second: {:?} became {:?}", ids_a, a.ids()));
    }
    for (what, s, ids) in [("first", &a, &ids_a), ("second", &b, &ids_b)] {
        if !s.guards_ok() || sorted(&s.ids()) != sorted(ids) {
            refuse(format!("storage around or in the {} container changed: {:?} became {:?}", what, ids, s.ids()));
        }
    }
    check_stop();
}

#[cfg(any(shape = "g", shape = "h"))]
fn inside(at: usize, start: usize, n: usize) {
    let size = std::mem::size_of::<u64>();
    if at < start || at >= start + n * size {
        refuse(format!("an element {} bytes from the start of {} elements", at.wrapping_sub(start) as isize, n));
    }
}

#[cfg(shape = "g")]
pub fn run() {
    let n = 1 + choose(10);
    let v: Vec<u64> = (0..n as u64).collect();
    let w: Vec<u64> = (0..n as u64).collect();
    let i = choose(n);
    mark();
    ev!("{} elements, position {}", n, i);
    nontrivial();
    let r = attempt_any(|| {
        scope(v, |c| {
            let i = c.vet(i).unwrap();
            probe::act(c, w, i, 7u64, &mut inside)
        })
    });
    if r.is_err() {
        ev!("the client was stopped by a panic");
    }
    check_stop();
}

#[cfg(shape = "h")]
pub fn run() {
    let n = 1 + choose(10);
    let mut v: Vec<u64> = (0..n as u64).collect();
    let mut w: Vec<u64> = (0..n as u64).collect();
    let before = (v.clone(), w.clone());
    let i = choose(n);
    mark();
    ev!("{} elements, position {}", n, i);
    nontrivial();
    let r = attempt_any(|| {
        scope(&mut v[..], |c| {
            let i = c.vet(i).unwrap();
            probe::act(c, &mut w[..], i, &mut inside)
        })
    });
    if r.is_err() {
        ev!("the client was stopped by a panic");
    }
    // shape h only ever changes the twin
    if v != before.0 {
        refuse(format!("the storage of the original through its twin: {:?} became {:?}", before.0, v));
    }
    check_stop();
}

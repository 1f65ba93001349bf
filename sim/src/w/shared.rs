//! C12 with a client that has got exclusive access it should not have (see probes.py).

use crate::elem::{Elem, Small};
use crate::ev;
use crate::sched::{self, par, yield_point, Task};
use crate::sim::{check_stop, choose, flag, mark, nontrivial};
use crate::store::Arena;
use indexing::scope;

mod probe {
    include!(env!("SHARED_PROBE"));
}

struct P<T>(*const T);
unsafe impl<T> Send for P<T> {}
impl<T> Clone for P<T> {
    fn clone(&self) -> Self {
        P(self.0)
    }
}
#[inline(never)]
fn look<E: Elem>(p: &P<E>, n: usize) -> Vec<u32> {
    (0..n).map(|i| unsafe { (*std::hint::black_box(p.0).add(i)).id() }).collect()
}
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(self) -> T {
        self.0
    }
}

/// Reads what must not change while it is shared.
fn reader<'a>(p: P<Small>, n: usize, want: Vec<u32>, steps: usize) -> Task<'a> {
    Box::new(move || {
        let p = p;
        for _ in 0..steps {
            yield_point();
            let got = look(&p, n);
            if got != want {
                flag(&["C12"], "shared storage changed", format!("a thread reading {:?} suddenly saw {:?}", want, got));
            }
        }
    })
}

pub fn c12() {
    let n = 2 + choose(10);
    let ks: Vec<i32> = (0..n).map(|i| i as i32).collect();
    let mut a: Arena<Small> = Arena::new(&ks);
    let want = a.ids();
    let (i, j) = (choose(n - 1), n - 1);
    let cut = 1 + choose(n - 1);
    let steps = 1 + choose(8);
    let rate = 1 + choose(12);
    let p = P(a.slice().as_ptr());
    mark();
    ev!("{} shared elements, {} reads", n, steps);
    sched::begin(rate);
    nontrivial();
    #[cfg(shape = "a")]
    scope(a.slice(), |c| {
        let (i, j) = (c.vet(i).unwrap(), c.vet(j).unwrap());
        let (r, s) = (c.vet_range(0..cut).unwrap(), c.vet_range(cut..n).unwrap());
        let c = Force(c);
        par(vec![
            reader(p, n, want, steps),
            Box::new(move || {
                let c = c.get();
                yield_point();
                probe::act(c, i, j, r, s);
                ev!("the other thread used its exclusive access");
                yield_point();
            }),
        ]);
    });
    #[cfg(shape = "b")]
    scope(a.slice_mut(), |c| {
        let (i, j) = (c.vet(i).unwrap(), c.vet(j).unwrap());
        let (r, s) = (c.vet_range(0..cut).unwrap(), c.vet_range(cut..n).unwrap());
        let c = Force(&c);
        par(vec![
            reader(p, n, want, steps),
            Box::new(move || {
                let c = c.get();
                yield_point();
                probe::act(c, i, j, r, s);
                ev!("the other thread used its exclusive access");
                yield_point();
            }),
        ]);
    });
    #[cfg(shape = "c")]
    scope(a.slice_mut(), |mut c| {
        let _ = (i, j, &want);
        let (r, s) = (c.vet_range(0..cut).unwrap(), c.vet_range(cut..n).unwrap());
        let u = probe::act(&mut c, r, s);
        let v = probe::act(&mut c, r, s);
        let q = P(u.as_ptr());
        let m = u.len();
        let mine: Vec<u32> = look(&q, m);
        let v = Force(v);
        par(vec![
            reader(q, m, mine, steps),
            Box::new(move || {
                let v = v.get();
                yield_point();
                v.reverse();
                ev!("the other thread reversed a part of {}", v.len());
                yield_point();
            }),
        ]);
        let _ = p;
    });
    #[cfg(shape = "d")]
    scope(a.slice_mut(), |mut c| {
        let _ = (p, &want);
        let (i, j) = (c.vet(i).unwrap(), c.vet(j).unwrap());
        let (r, s) = (c.vet_range(0..cut).unwrap(), c.vet_range(cut..n).unwrap());
        probe::act(&mut c, i, j, r, s, &mut |u, v| {
            let q = P(u.as_ptr());
            let m = u.len();
            let mine: Vec<u32> = look(&q, m);
            par(vec![
                reader(q, m, mine, steps),
                Box::new(move || {
                    yield_point();
                    // puts elements of its own in place, and takes them out again
                    let mut own: Vec<Small> = v.iter().map(|_| Small::new(0)).collect();
                    for (x, y) in v.iter_mut().zip(&mut own) {
                        std::mem::swap(x, y);
                    }
                    ev!("the other thread replaced its part of {}", v.len());
                    yield_point();
                    for (x, y) in v.iter_mut().zip(&mut own) {
                        std::mem::swap(x, y);
                    }
                    yield_point();
                }),
            ]);
        });
    });
    #[cfg(shape = "e")]
    scope(a.slice_mut(), |mut c| {
        let _ = (p, &want);
        let (i, j) = (c.vet(i).unwrap(), c.vet(j).unwrap());
        let (r, s) = (c.vet_range(0..n).unwrap(), c.vet_range(cut..n).unwrap());
        probe::act(&mut c, i, j, r, s, &mut |seen, change| {
            let seen: Vec<P<Small>> = seen.into_iter().map(|x| P(x as *const Small)).collect();
            let mine: Vec<u32> = seen.iter().flat_map(|x| look(x, 1)).collect();
            let change = Force(change);
            par(vec![
                Box::new(move || {
                    let seen = seen;
                    for _ in 0..steps {
                        yield_point();
                        let got: Vec<u32> = seen.iter().flat_map(|x| look(x, 1)).collect();
                        if got != mine {
                            flag(&["C12"], "borrowed elements changed", format!("a thread that borrowed {:?} suddenly saw {:?}", mine, got));
                        }
                    }
                }),
                Box::new(move || {
                    let change = change.get();
                    yield_point();
                    change();
                    ev!("the other thread used its exclusive access");
                    yield_point();
                }),
            ]);
        });
    });
    #[cfg(shape = "s")]
    {
        let _ = (p, i, j, cut, &want);
        let cells: Vec<std::cell::Cell<u32>> = (0..n as u32).map(std::cell::Cell::new).collect();
        scope(&cells[..], |c| {
            let i = c.vet(i).unwrap();
            let (mut set, mut get) = probe::act(&c, i);
            let first = get();
            par(vec![
                Box::new(move || {
                    for _ in 0..steps {
                        yield_point();
                        let now = get();
                        if now != first {
                            flag(&["C12"], "shared storage changed", format!("a thread reading {} suddenly saw {}", first, now));
                        }
                    }
                }),
                Box::new(move || {
                    yield_point();
                    set(1000);
                    ev!("the other thread stored through its shared reference");
                    yield_point();
                }),
            ]);
        });
    }
    sched::end();
    check_stop();
}

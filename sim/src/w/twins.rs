//! C11: twin containers.

use super::algebra::{self, Pool, Tags};
use super::history::{self, eq_ids, keys, read, scan, verify, write, Kind, Model, Ri, Ro, Rw};
use super::sorts;
use crate::elem::{self, ids, sorted, Big, Elem, Small, Tok, Word};
use crate::ev;
use crate::sim::{self, attempt, attempt_any, chance, check_stop, choose, fault, flag, mark, nontrivial, probe, sim, state, weighted};
use crate::store::Arena;
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::{scope, Container};

const T: Tags = &["C11"];

/// One client's step on one of the twins.
fn step<'id, E, A, M, K>(c: &mut Container<'id, A, M>, m: &mut Model, pools: &mut [Pool<'id>], who: usize, crashes: bool)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
    K: Kind<E, A, M>,
{
    let len = m.ids.len();
    if c.len() != len {
        flag(T, "length of a twin", format!("{} should be {}", c.len(), len));
        check_stop();
    }
    if pools[who].count() == 0 {
        algebra::step_op(c, &mut pools[who], len, 3);
        algebra::step_op(c, &mut pools[who], len, 0);
    }
    match weighted(&[6, 4, if K::MUT { 5 } else { 0 }, 2]) {
        0 => algebra::step(c, &mut pools[who], len),
        1 => read(c, m, &pools[who]),
        2 => write::<E, A, M, K>(c, m, &pools[who], crashes),
        _ => scan(c, m, pools, who, 0, crashes),
    }
}

/// make_twin with an array of any other length is refused, and leaves that array alone.
fn refuse<'id, A, M>(c: &Container<'id, A, M>, n: usize)
where
    A: Trustworthy + FixedLength,
{
    let other = match choose(4) {
        0 => n + 1,
        1 if n > 0 => n - 1,
        2 => 0,
        _ => choose(2 * n + 3),
    };
    if other == n {
        return;
    }
    let mut x: Arena<Small> = Arena::new(&keys(other));
    let before = x.ids();
    ev!("make_twin({} elements) of {}", other, n);
    let granted = if choose(2) == 0 { c.make_twin(x.slice_mut()).is_ok() } else { c.make_twin(x.slice()).is_ok() };
    if granted {
        flag(T, "twin of different length", format!("{} elements accepted as twin of {}", other, n));
    }
    probe("twin refused");
    if x.ids() != before {
        flag(T, "refused twin changed", format!("{:?} became {:?}", before, x.ids()));
    }
    check_stop();
}

fn grant<T2>(r: Result<T2, indexing::IndexingError>, n: usize) -> T2 {
    match r {
        Ok(t) => t,
        Err(_) => {
            flag(T, "twin refused", format!("{} elements refused as twin of {}", n, n));
            check_stop();
            unreachable!()
        }
    }
}

fn family<'id, E, A, M, K>(mut c: Container<'id, A, M>, m: &mut Model, steps: usize, crashes: bool)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked + FixedLength,
    K: Kind<E, A, M>,
{
    let n = m.ids.len();
    refuse(&c, n);
    // a twin of the original, a twin of that twin, and one of shared storage
    let mut a1: Arena<Big> = Arena::new(&keys(n));
    let mut a2: Arena<Small> = Arena::new(&keys(n));
    let a3: Arena<Tok> = Arena::new(&keys(n));
    let mut m1 = Model { ids: a1.ids(), steps: 0 };
    let mut m2 = Model { ids: a2.ids(), steps: 0 };
    let mut m3 = Model { ids: a3.ids(), steps: 0 };
    {
        let mut t1 = grant(c.make_twin(&mut a1), n);
        let mut t2 = grant(t1.make_twin(a2.slice_mut()), n);
        let mut t3 = if choose(2) == 0 { grant(c.make_twin(a3.slice()), n) } else { grant(t2.make_twin(a3.slice()), n) };
        let mut clones: Vec<Container<'id, &[Tok], OnlyIndex>> = Vec::new();
        let k = 1 + choose(3);
        let mut pools: Vec<Pool<'id>> = (0..k).map(|_| Pool::new()).collect();
        for _ in 0..steps {
            mark();
            let who = choose(k);
            let which = choose(4);
            if which > 0 {
                nontrivial();
            }
            ev!("client {} on twin {}", who, which);
            if choose(16) == 0 {
                refuse(&t1, n);
                refuse(&t3, n);
            }
            let r = attempt(|| match which {
                0 => step::<E, A, M, K>(&mut c, m, &mut pools, who, crashes),
                1 => step::<Big, _, _, Ri>(&mut t1, &mut m1, &mut pools, who, crashes),
                2 => step::<Small, _, _, Ri>(&mut t2, &mut m2, &mut pools, who, crashes),
                _ => {
                    if clones.len() < 2 && chance(1, 6) {
                        clones.push(t3.clone());
                    }
                    if !clones.is_empty() && choose(2) == 0 {
                        let j = choose(clones.len());
                        if choose(4) == 0 {
                            // a twin of a clone of a twin
                            let x: Arena<Small> = Arena::new(&keys(n));
                            let mut mx = Model { ids: x.ids(), steps: 0 };
                            let mut t = grant(clones[j].make_twin(x.slice()), n);
                            step::<Small, _, _, Ro>(&mut t, &mut mx, &mut pools, who, crashes)
                        } else {
                            step::<Tok, _, _, Ro>(&mut clones[j], &mut m3, &mut pools, who, crashes)
                        }
                    } else {
                        step::<Tok, _, _, Ro>(&mut t3, &mut m3, &mut pools, who, crashes)
                    }
                }
            });
            check_stop();
            if let Err(x) = r {
                ev!("client {} crashed: {}", who, x);
                pools[who] = Pool::new();
            }
            // the same operation on several twins in lock step
            if chance(1, 4) {
                if let Some((r, s, e)) = pools[who].pick_any_range() {
                    let up = choose(2) == 0;
                    ev!("lock step rotate {} of {}..{}", if up { "up" } else { "down" }, s, e);
                    let rot = |v: &mut [u32]| if s < e { if up { v[s..e].rotate_right(1) } else { v[s..e].rotate_left(1) } };
                    if up {
                        t1.rotate1_up(r);
                        t2.rotate1_up(r);
                    } else {
                        t1.rotate1_down(r);
                        t2.rotate1_down(r);
                    }
                    rot(&mut m1.ids);
                    rot(&mut m2.ids);
                }
            }
            verify(&c, m, T, "twin history (original)");
            verify(&t1, &m1, T, "twin history (1)");
            verify(&t2, &m2, T, "twin history (2)");
            verify(&t3, &m3, T, "twin history (3)");
            for p in &pools {
                p.audit(n);
            }
            check_stop();
            let p = &pools[who];
            state(&[
                which as u64,
                n as u64,
                p.i.iter().map(|x| x.1 as u64 + 1).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
                p.n.iter().map(|x| (x.1 * 64 + x.2) as u64).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
            ]);
        }
    }
    a1.check_guards("twins");
    a2.check_guards("twins");
    a3.check_guards("twins");
    eq_ids(a1.slice(), &m1.ids, T, "after the scope");
    eq_ids(a2.slice(), &m2.ids, T, "after the scope");
    check_stop();
}

fn histories<E: Elem>() {
    let n = match choose(6) {
        0 => 0,
        1 => 1,
        _ => 1 + choose(12),
    };
    let mut a: Arena<E> = Arena::new(&keys(n));
    let mut m = Model { ids: a.ids(), steps: 0 };
    let crashes = chance(1, 2);
    let steps = [6, 15, 30][choose(3)];
    match choose(5) {
        0 => scope(a.slice_mut(), |c| family::<E, _, _, Rw>(c, &mut m, steps, crashes)),
        1 => scope(a.slice_mut(), |c| family::<E, _, _, Ri>(c.only_index(), &mut m, steps, crashes)),
        2 => scope(a.slice(), |c| family::<E, _, _, Ro>(c, &mut m, steps, crashes)),
        3 => scope(a.slice(), |c| family::<E, _, _, Ro>(c.only_index(), &mut m, steps, crashes)),
        _ => scope(&mut a, |c| family::<E, _, _, Rw>(c, &mut m, steps, crashes)),
    }
    a.check_guards("twins");
    eq_ids(a.slice(), &m.ids, T, "after the scope");
    check_stop();
}

/// The lock-step sort of slices of different length changes nothing.
fn unequal<E: Elem>() {
    let n = choose(12);
    let k = match choose(3) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        _ => choose(16),
    };
    if n == k {
        return;
    }
    nontrivial();
    let mut a: Arena<E> = Arena::new(&sorts::shape(n));
    let mut b: Arena<Small> = Arena::new(&keys(k));
    let (x, y) = (a.ids(), b.ids());
    ev!("insertion_sort2_indexes of {} and {} elements", n, k);
    if choose(2) == 0 {
        sim().cmp = sim::CmpPlan { stuck: 1, ..Default::default() };
    }
    let r = attempt_any(|| indexing::algorithms::insertion_sort2_indexes(a.slice_mut(), b.slice_mut(), sorts::less));
    elem::end_plan();
    ev!("-> {:?}", r);
    if (a.ids(), b.ids()) != (x.clone(), y.clone()) {
        flag(T, "changed before refusal", format!("{:?}/{:?} became {:?}/{:?}", x, y, a.ids(), b.ids()));
    } else if r.is_ok() {
        flag(T, "unequal slices not refused", format!("{} and {} elements", n, k));
    }
    fault("unequal_lengths");
    a.check_guards("lock step");
    b.check_guards("lock step");
    check_stop();
}

/// make_twin of containers of zero-sized elements compares lengths as well.
fn huge() {
    let max = isize::MAX as usize;
    let n = match choose(3) {
        0 => choose(6) * (max / 5),
        1 => choose(20),
        _ => (choose(20) << [8, 16, 31, 32, 48][choose(5)]) + choose(4),
    };
    let k = match choose(6) {
        0 | 1 => n,
        2 => n.wrapping_add(1).min(max),
        3 => n.saturating_sub(1),
        // the same in the low half, quarter, ... of the word
        4 => n & ((1 << [8, 16, 31, 32, 48][choose(5)]) - 1),
        _ => n.saturating_add((1 + choose(3)) << [8, 16, 31, 32, 48][choose(5)]).min(max),
    };
    let (mut v, mut w): (Vec<()>, Vec<()>) = (Vec::new(), Vec::new());
    unsafe {
        v.set_len(n);
        w.set_len(k);
    }
    ev!("make_twin({} zero-sized elements) of {}", k, n);
    let ok = scope(&v[..], |c| match c.make_twin(&mut w[..]) {
        Err(_) => false,
        Ok(t) => {
            let mut p = Pool::new();
            for _ in 0..12 {
                algebra::step_op(&c, &mut p, n, 3);
                algebra::step(&t, &mut p, n);
                check_stop();
            }
            if let Some((r, s, e)) = p.pick_any_range() {
                if t[r].len() != e - s || c[r].len() != e - s {
                    flag(T, "range of a huge twin", format!("{}..{}", s, e));
                }
            }
            true
        }
    });
    if ok != (n == k) {
        flag(T, "twin admission", format!("{} as twin of {}: {}", k, n, ok));
    }
}

pub fn c11() {
    match weighted(&[10, 5, 2, 1]) {
        0 => match choose(4) {
            3 => histories::<Word>(),
            _ => histories::<Tok>(),
        },
        1 => sorts::lockstep(),
        2 => match choose(2) {
            0 => unequal::<Tok>(),
            _ => unequal::<Big>(),
        },
        _ => huge(),
    }
}
#[allow(unused)]
fn _u<E: Elem>(v: &[E]) -> Vec<u32> {
    let _ = history::c01 as fn();
    sorted(&ids(v))
}

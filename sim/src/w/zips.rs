//! C14: pairwise traversals.

use super::history::{eq_ids, extent, keys, length};
use crate::elem::{ids, Big, Elem, Pair, Small, Tok, Word};
use crate::ev;
use crate::sim::{attempt_any, chance, check_stop, choose, crash, flag, flag_known, mark, nontrivial, pick, probe, state, weighted};
use crate::store::{Arena, SimStore};
use indexing::algorithms::{copy, copy_prange, zip_dot_i32, zip_dot_i32_prange};
use indexing::container_traits::*;
use indexing::pointer::{zip, PRange, PSlice};
use indexing::{scope, Container};

const T: &[&str] = &["C14"];

/// Where the closure panics, if it does.
fn stop_at(pairs: usize) -> usize {
    if chance(1, 2) { choose(pairs + 1) } else { usize::MAX }
}
fn interval(n: usize) -> (usize, usize) {
    let s = choose(n + 1);
    (s, s + choose(n - s + 1))
}

/// zip_mut_raw over two ranges of one container.
fn raw<'id, E, A, M>(c: &mut Container<'id, A, M>, m: &mut Vec<u32>, at: impl Fn(&Container<'id, A, M>) -> (usize, usize))
where
    E: Elem,
    A: GetUncheckedMut<Item = E>,
{
    let n = m.len();
    for _ in 0..1 + choose(3) {
        mark();
        let (s, e) = interval(n);
        let (t, f) = match choose(4) {
            0 => (s, e),
            1 => (s, s + choose(n - s + 1)),
            _ => interval(n),
        };
        let (r, q) = match (c.vet_range(s..e), c.vet_range(t..f)) {
            (Ok(r), Ok(q)) => (r, q),
            _ => {
                flag(T, "vet_range", format!("{}..{} or {}..{} of {}", s, e, t, f, n));
                check_stop();
                return;
            }
        };
        let pairs = (e - s).min(f - t);
        let stop = stop_at(pairs);
        let write = choose(3);
        let (base, _) = at(c);
        ev!("zip_mut_raw({}..{}, {}..{}), panic at {}", s, e, t, f, stop as isize);
        let mut k = 0usize;
        let mut inside = false;
        let res = attempt_any(|| {
            let mut cb = |a: *mut E, b: *mut E| {
                inside = true;
                if k >= pairs {
                    flag(T, "extra pair", format!("zip_mut_raw({}..{}, {}..{}): pair {}", s, e, t, f, k));
                    check_stop();
                }
                let z = std::mem::size_of::<E>();
                if a as usize != base + (s + k) * z || b as usize != base + (t + k) * z {
                    flag(T, "wrong pair", format!("zip_mut_raw({}..{}, {}..{}): pair {} is at {:?}", s, e, t, f, k, ((a as usize).wrapping_sub(base) / z, (b as usize).wrapping_sub(base) / z)));
                    check_stop();
                }
                let got = unsafe { ((*a).id(), (*b).id()) };
                if got != (m[s + k], m[t + k]) {
                    flag(T, "wrong pair", format!("zip_mut_raw({}..{}, {}..{}): pair {} is {:?}", s, e, t, f, k, got));
                    check_stop();
                }
                if choose(96) == 95 {
                    crate::nested::nested();
                }
                if k == stop {
                    crash("callback_panic");
                }
                match write {
                    0 => {
                        unsafe { std::ptr::swap(a, b) };
                        m.swap(s + k, t + k);
                    }
                    1 => {
                        let x = E::new(choose(5) as i32);
                        m[s + k] = x.id();
                        unsafe { *a = x };
                    }
                    _ => {}
                }
                k += 1;
                inside = false;
            };
            // through both kinds of range
            match (choose(2), r.nonempty(), q.nonempty()) {
                (0, Ok(r), Ok(q)) => c.zip_mut_raw(r, q, &mut cb),
                _ => c.zip_mut_raw(r, q, &mut cb),
            }
        });
        ended(&res, k, pairs, stop, inside, &|| format!("zip_mut_raw({}..{}, {}..{})", s, e, t, f));
        for i in 0..n {
            match c.vet(i) {
                Ok(x) if c[x].id() == m[i] => {}
                _ => flag(T, "other elements", format!("zip_mut_raw({}..{}, {}..{}): element {}", s, e, t, f, i)),
            }
        }
        check_stop();
        state(&[0, n as u64, s as u64, e as u64, t as u64, f as u64, stop as u64]);
    }
}

fn ended(res: &Result<(), String>, k: usize, pairs: usize, stop: usize, inside: bool, what: &dyn Fn() -> String) {
    check_stop();
    match res {
        Ok(()) => {
            if inside || stop < pairs {
                flag(T, "panic swallowed", what());
            } else if k != pairs {
                flag(T, "pairs missed", format!("{}: {} of {}", what(), k, pairs));
            }
        }
        Err(e) if e == "callback_panic" => {
            if k != stop {
                flag(T, "pairs before a panic", format!("{}: {}, should be {}", what(), k, stop));
            }
            nontrivial();
        }
        Err(e) => flag(T, "panic", format!("{}: {}", what(), e)),
    }
}

fn raws<E: Elem>() {
    let mut a: Arena<E> = Arena::new(&keys(length(true)));
    let mut m = a.ids();
    ev!("{} elements", m.len());
    match choose(4) {
        0 => scope(a.slice_mut(), |mut c| raw::<E, _, _>(&mut c, &mut m, |c| extent(&c[..]))),
        1 => scope(a.slice_mut(), |c| raw::<E, _, _>(&mut c.only_index(), &mut m, |c| extent(&c[..]))),
        2 => scope(&mut a, |mut c| raw::<E, _, _>(&mut c, &mut m, |c| extent(&c[..]))),
        _ => {
            drop(a);
            let mut st: SimStore<E> = SimStore::new(&keys(length(true)));
            m = st.a.ids();
            scope(&mut st, |c| raw::<E, _, _>(&mut c.only_index(), &mut m, |c| extent(&c[..])));
            check_stop();
            st.a.check_guards("zip_mut_raw");
            eq_ids(st.a.slice(), &m, T, "after zip_mut_raw");
            check_stop();
            return;
        }
    }
    check_stop();
    a.check_guards("zip_mut_raw");
    eq_ids(a.slice(), &m, T, "after zip_mut_raw");
    check_stop();
}

#[cfg(feature = "std_lib")]
fn raws_vec() {
    let ks = keys(length(true));
    let mut v: Vec<Tok> = Vec::with_capacity(ks.len() + super::history::spare());
    v.extend(ks.iter().map(|k| Tok::new(*k)));
    let mut m = ids(&v);
    scope(&mut v, |c| raw::<Tok, _, _>(&mut c.only_index(), &mut m, |c| extent(&c[..])));
    check_stop();
    eq_ids(&v, &m, T, "after zip_mut_raw");
    check_stop();
}

/// The two sides of one pointer-based zip.
struct Side<'a> {
    m: &'a mut Vec<u32>,
    s: usize,
    e: usize,
}

/// A pointer range designating s..e.
fn prange<'id, E, A>(c: &Container<'id, A>, s: usize, e: usize) -> PRange<'id, E>
where
    E: Elem,
    A: Contiguous<Item = E>,
{
    let whole = c.pointer_range();
    let edge = |v: usize| match whole.into_iter().nth(v) {
        Some(p) => indexing::proof::Provable::no_proof(p),
        None => whole.past_the_end(),
    };
    let (_, tail) = c.split_at_pointer(edge(s));
    let r = match c.nonempty_range(edge(s), edge(e)) {
        Ok(r) => indexing::proof::Provable::no_proof(r),
        Err(_) => c.split_at_pointer(edge(s)).0,
    };
    if s == e {
        // an empty range at s
        return match tail.nonempty() {
            Ok(n) if n.len() > 1 && s + 1 < c.len() => {
                let one = c.nonempty_range(n.first(), edge(s + 1)).expect("in order");
                indexing::proof::Provable::no_proof(one.init())
            }
            _ => {
                let mut t = tail;
                while let Ok(n) = t.nonempty() {
                    t = n.tail();
                }
                t
            }
        };
    }
    r
}

trait Touch {
    type E: Elem;
    fn id(&self) -> u32;
    fn addr(&self) -> usize;
    fn put(self, e: Option<i32>) -> u32;
    const W: bool;
}
impl<'a, E: Elem> Touch for &'a E {
    type E = E;
    fn id(&self) -> u32 { Elem::id(*self) }
    fn addr(&self) -> usize { *self as *const E as usize }
    fn put(self, _: Option<i32>) -> u32 { Elem::id(self) }
    const W: bool = false;
}
impl<'a, E: Elem> Touch for &'a mut E {
    type E = E;
    fn id(&self) -> u32 { Elem::id(&**self) }
    fn addr(&self) -> usize { &**self as *const E as usize }
    fn put(self, e: Option<i32>) -> u32 {
        if let Some(k) = e {
            *self = E::new(k);
        }
        Elem::id(self)
    }
    const W: bool = true;
}

/// The closure of a zip: checks every pair, writes where it may, panics where it should.
struct Pairs<'a> {
    a: Side<'a>,
    b: Side<'a>,
    ba: usize,
    bb: usize,
    k: usize,
    n: usize,
    stop: usize,
    write: bool,
    inside: bool,
}
impl<'a> Pairs<'a> {
    fn pair<X: Touch, Y: Touch>(&mut self, x: X, y: Y) {
        self.inside = true;
        if self.k >= self.n {
            flag(T, "extra pair", format!("zip: pair {} of {}", self.k, self.n));
            check_stop();
        }
        let (i, j) = (self.a.s + self.k, self.b.s + self.k);
        let (zx, zy) = (std::mem::size_of::<X::E>(), std::mem::size_of::<Y::E>());
        if x.addr() != self.ba + i * zx || y.addr() != self.bb + j * zy {
            flag(T, "wrong pair", format!("zip: pair {} is at {:?}", self.k, (x.addr().wrapping_sub(self.ba) / zx, y.addr().wrapping_sub(self.bb) / zy)));
            check_stop();
        }
        if (x.id(), y.id()) != (self.a.m[i], self.b.m[j]) {
            flag(T, "wrong pair", format!("zip: pair {} is {:?}", self.k, (x.id(), y.id())));
            check_stop();
        }
        if choose(96) == 95 {
            crate::nested::nested();
        }
        if self.k == self.stop {
            crash("callback_panic");
        }
        if self.write {
            self.a.m[i] = x.put(Some(self.k as i32));
            self.b.m[j] = y.put(Some(self.k as i32));
        }
        self.k += 1;
        self.inside = false;
    }
}

/// All forms of one zip: which container is accessed exclusively, ranges or slices.
fn two<E: Elem, F: Elem>() {
    let mut a: Arena<E> = Arena::new(&keys(length(true)));
    let mut b: Arena<F> = Arena::new(&keys(length(true)));
    let (mut ma, mut mb) = (a.ids(), b.ids());
    for _ in 0..1 + choose(3) {
        mark();
        let (s, e) = if choose(3) == 0 { (0, ma.len()) } else { interval(ma.len()) };
        let (t, f) = if choose(3) == 0 { (0, mb.len()) } else { interval(mb.len()) };
        let n = (e - s).min(f - t);
        let (ba, bb) = (extent(a.slice()).0, extent(b.slice()).0);
        let form = choose(4);
        let shape = choose(8);
        let stop = stop_at(n);
        let mut p = Pairs {
            a: Side { m: &mut ma, s, e },
            b: Side { m: &mut mb, s: t, e: f },
            ba,
            bb,
            k: 0,
            n,
            stop,
            write: choose(2) == 0,
            inside: false,
        };
        let _ = (p.a.e, p.b.e);
        ev!("zip({}..{}, {}..{}) form {} shape {}, panic at {}", s, e, t, f, form, shape, stop as isize);
        macro_rules! go {
            ($r:expr, $ca:expr, $q:expr, $cb:expr) => {{
                let (r, q) = ($r, $q);
                match (shape, r.nonempty(), q.nonempty()) {
                    (0 | 1, _, _) => zip(r, $ca, q, $cb, |x, y| p.pair(x, y)),
                    (2, _, _) => zip(PSlice::from(r), $ca, q, $cb, |x, y| p.pair(x, y)),
                    (3, _, _) => zip(r, $ca, PSlice::from(q), $cb, |x, y| p.pair(x, y)),
                    (4 | 5, _, _) => zip(PSlice::from(r), $ca, PSlice::from(q), $cb, |x, y| p.pair(x, y)),
                    (6, Ok(r), Ok(q)) => zip(r, $ca, PSlice::from(q), $cb, |x, y| p.pair(x, y)),
                    (7, Ok(r), Ok(q)) => zip(PSlice::from(r), $ca, q, $cb, |x, y| p.pair(x, y)),
                    _ => zip(r, $ca, q, $cb, |x, y| p.pair(x, y)),
                }
            }};
        }
        let res = attempt_any(|| match form {
            0 => scope(a.slice(), |c| scope(b.slice(), |d| go!(prange(&c, s, e), &c, prange(&d, t, f), &d))),
            1 => scope(a.slice_mut(), |mut c| scope(b.slice(), |d| go!(prange(&c, s, e), &mut c, prange(&d, t, f), &d))),
            2 => scope(a.slice(), |c| scope(&mut b, |mut d| go!(prange(&c, s, e), &c, prange(&d, t, f), &mut d))),
            _ => scope(&mut a, |mut c| scope(b.slice_mut(), |mut d| go!(prange(&c, s, e), &mut c, prange(&d, t, f), &mut d))),
        });
        let (k, inside) = (p.k, p.inside);
        ended(&res, k, n, stop, inside, &|| format!("zip({}..{}, {}..{})", s, e, t, f));
        check_stop();
        a.check_guards("zip");
        b.check_guards("zip");
        eq_ids(a.slice(), &ma, T, "zip: first container");
        eq_ids(b.slice(), &mb, T, "zip: second container");
        check_stop();
        state(&[1, (form * 8 + shape) as u64, s as u64, e as u64, t as u64, f as u64, stop as u64]);
    }
    drop((a, b));
    check_stop();
}

/// Two ranges of one shared container.
fn same<E: Elem>() {
    let a: Arena<E> = Arena::new(&keys(length(true)));
    let mut ma = a.ids();
    let mut mb = a.ids();
    let n = ma.len();
    let (s, e) = interval(n);
    let (t, f) = if choose(4) == 0 { (s, e) } else { interval(n) };
    let pairs = (e - s).min(f - t);
    let base = extent(a.slice()).0;
    let stop = stop_at(pairs);
    let mut p = Pairs {
        a: Side { m: &mut ma, s, e },
        b: Side { m: &mut mb, s: t, e: f },
        ba: base,
        bb: base,
        k: 0,
        n: pairs,
        stop,
        write: false,
        inside: false,
    };
    ev!("zip({}..{}, {}..{}) of one container", s, e, t, f);
    let clone = choose(2) == 0;
    let res = attempt_any(|| {
        scope(a.slice(), |c| {
            let (r, q) = (prange(&c, s, e), prange(&c, t, f));
            if clone {
                let d = c.clone();
                zip(r, &c, PSlice::from(q), &d, |x, y| p.pair(x, y))
            } else {
                zip(r, &c, q, &c, |x, y| p.pair(x, y))
            }
        })
    });
    let (k, inside) = (p.k, p.inside);
    ended(&res, k, pairs, stop, inside, &|| format!("zip({}..{}, {}..{}) of one container", s, e, t, f));
    eq_ids(a.slice(), &ma, T, "zip: container");
    a.check_guards("zip");
    check_stop();
}

/// copy and copy_prange for several kinds of elements.
fn copies<X: Copy + PartialEq + std::fmt::Debug>(make: impl Fn(usize) -> X) {
    let (n, m) = (choose(20), choose(20));
    const G: usize = 3;
    let xs: Vec<X> = (0..n + 2 * G).map(|_| make(choose(200))).collect();
    let mut ys: Vec<X> = (0..m + 2 * G).map(|_| make(choose(200))).collect();
    let (x0, y0) = (xs.clone(), ys.clone());
    let which = choose(2);
    let name = ["copy", "copy_prange"][which];
    ev!("{} of {} to {} elements of {} bytes", name, n, m, std::mem::size_of::<X>());
    let r = attempt_any(|| match which {
        0 => copy(&xs[G..G + n], &mut ys[G..G + m]),
        _ => copy_prange(&xs[G..G + n], &mut ys[G..G + m]),
    });
    if n != m {
        nontrivial();
    }
    if let Err(e) = r {
        if std::mem::size_of::<X>() == 0 && which == 1 {
            flag_known(T, "zst-copy-prange", format!("{} of {} to {} zero-sized elements: {}", name, n, m, e));
        } else {
            flag(T, "copy panics", format!("{} of {} to {} elements: {}", name, n, m, e));
        }
        return;
    }
    let k = n.min(m);
    let mut want = y0.clone();
    want[G..G + k].copy_from_slice(&x0[G..G + k]);
    if ys != want || xs != x0 {
        flag(T, "copy", format!("{} of {:?} to {:?} gave {:?}, should be {:?}", name, &x0[G..G + n], &y0, ys, want));
    }
    check_stop();
}

fn dots() {
    let (n, m) = (choose(24), choose(24));
    let xs: Vec<i32> = (0..n + 2).map(|_| choose(200) as i32 - 100).collect();
    let ys: Vec<i32> = (0..m + 2).map(|_| choose(200) as i32 - 100).collect();
    let (x, y) = (&xs[1..1 + n], &ys[1..1 + m]);
    let want: i32 = (0..n.min(m)).map(|i| x[i] * y[i]).sum();
    ev!("dot product of {} and {} numbers", n, m);
    let (a, b) = (zip_dot_i32(x, y), zip_dot_i32_prange(x, y));
    if a != want || b != want {
        flag(T, "dot product", format!("{:?} . {:?}: {} and {}, should be {}", x, y, a, b, want));
    }
    if n != m {
        nontrivial();
    }
}

/// Zero-sized elements: pairs can only be counted.
fn units() {
    nontrivial();
    probe("zero-sized elements");
    let huge = isize::MAX as usize;
    let n = pick(&[0, 1, 2, 7, huge, huge - 1]);
    let m = pick(&[0, 1, 3, 7, 12]);
    let (mut v, mut w): (Vec<()>, Vec<()>) = (Vec::new(), Vec::new());
    unsafe {
        v.set_len(n);
        w.set_len(m);
    }
    let pairs = n.min(m);
    let stop = stop_at(pairs);
    let mut k = 0;
    let mut inside = false;
    let form = choose(5);
    // elements with a size on the other side
    let nums: Vec<u32> = (0..m as u32).collect();
    let mut seen = vec![];
    ev!("zip of {} and {} zero-sized elements, form {}", n, m, form);
    let mut f = |x: Option<u32>| {
        inside = true;
        if k >= pairs {
            flag(T, "extra pair", format!("zip of {} and {} zero-sized elements", n, m));
            check_stop();
        }
        if k == stop {
            crash("callback_panic");
        }
        seen.extend(x);
        k += 1;
        inside = false;
    };
    let res = attempt_any(|| match form {
        0 => scope(&v[..], |c| scope(&w[..], |d| zip(c.pointer_slice(), &c, d.pointer_slice(), &d, |_, _| f(None)))),
        1 => scope(&v[..], |c| scope(&mut w[..], |mut d| zip(c.pointer_slice(), &c, d.pointer_slice(), &mut d, |_, _| f(None)))),
        2 => scope(&v[..], |c| scope(&nums[..], |d| zip(c.pointer_slice(), &c, d.pointer_range(), &d, |_, y: &u32| f(Some(*y))))),
        3 => scope(&mut v[..], |mut c| {
            let (r, q) = (c.range(), c.range());
            let _ = (r, q);
            let short = c.vet_range(0..pairs).unwrap();
            c.zip_mut_raw(short, r, |_, _| f(None))
        }),
        // a range between two pointers to zero-sized elements: a known finding
        _ => scope(&v[..], |c| scope(&w[..], |d| zip(c.pointer_range(), &c, d.pointer_range(), &d, |_, _| f(None)))),
    });
    match &res {
        Err(e) if form == 4 && e != "callback_panic" => {
            flag_known(T, "zst-zip-prange", format!("zip of {} and {} zero-sized elements: {}", n, m, e));
            return;
        }
        Ok(_) if form == 4 && k == 0 && pairs > 0 => {
            flag_known(T, "zst-zip-prange", format!("zip of {} and {} zero-sized elements: visits nothing", n, m));
            return;
        }
        _ => {}
    }
    ended(&res, k, pairs, stop, inside, &|| format!("zip of {} and {} zero-sized elements (form {})", n, m, form));
    if seen.iter().enumerate().any(|(i, x)| *x != i as u32) {
        flag(T, "wrong pair", format!("zip of zero-sized elements with numbers: {:?}", seen));
    }
    check_stop();
}

pub fn c14() {
    match weighted(&[6, 6, 2, 2, 1, 1, 1]) {
        0 => match choose(6) {
            4 => raws::<Word>(),
            5 => raws::<Pair>(),
            0 => raws::<Tok>(),
            1 => raws::<Small>(),
            2 => raws::<Big>(),
            _ => {
                #[cfg(feature = "std_lib")]
                raws_vec();
                #[cfg(not(feature = "std_lib"))]
                raws::<Tok>();
            }
        },
        1 => match choose(6) {
            4 => two::<Word, Word>(),
            5 => two::<Pair, Word>(),
            0 => two::<Tok, Small>(),
            1 => two::<Small, Big>(),
            2 => two::<Big, Tok>(),
            _ => two::<Small, Small>(),
        },
        2 => match choose(4) {
            3 => same::<Word>(),
            0 => same::<Tok>(),
            1 => same::<Small>(),
            _ => same::<Big>(),
        },
        3 => match choose(5) {
            0 => copies(|x| x as u32),
            1 => copies(|x| x as u8),
            2 => copies(|x| [x as u16; 3]),
            3 => copies(|x| [x as u64; 5]),
            _ => copies(|_| ()),
        },
        4 => dots(),
        _ => units(),
    }
}

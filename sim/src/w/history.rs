//! Histories of several clients on one branded container.

use super::algebra::{self, plain, Pool, Tags};
use crate::elem::{ids, Big, Elem, Pair, Small, Tok, Word};
use crate::ev;
use crate::heap;
use crate::sim::{
    attempt, chance, check_stop, choose, crash, fault, flag, mark, nontrivial, probe, seq, sim, state, weighted,
};
use crate::store::{Arena, SimStore, GROW_FAIL};
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use std::sync::atomic::Ordering::SeqCst;

pub const SEQ: Tags = &["C05", "C11"];
pub const GROW: Tags = &["C02"];
pub const GROWN: Tags = &["C02", "C05"];

/// What a kind of container can do beyond reading.
pub trait Kind<E, A, M> {
    const MUT: bool = false;
    const GROW: bool = false;
    fn at<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Index<'id>) -> &'a mut E { unreachable!() }
    fn rng<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Range<'id>) -> &'a mut [E] { unreachable!() }
    fn rng_n<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Range<'id, NonEmpty>) -> &'a mut [E] { unreachable!() }
    fn from<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Index<'id, Unknown>) -> &'a mut [E] { unreachable!() }
    fn to<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Index<'id, Unknown>) -> &'a mut [E] { unreachable!() }
    fn from_i<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Index<'id>) -> &'a mut [E] { unreachable!() }
    fn to_i<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Index<'id>) -> &'a mut [E] { unreachable!() }
    fn full<'a, 'id>(_: &'a mut Container<'id, A, M>) -> Option<&'a mut [E]> { None }
    fn swap<'id>(_: &mut Container<'id, A, M>, _: Index<'id>, _: Index<'id>) { unreachable!() }
    fn up<'id>(_: &mut Container<'id, A, M>, _: Range<'id>) { unreachable!() }
    fn up_n<'id>(_: &mut Container<'id, A, M>, _: Range<'id, NonEmpty>) { unreachable!() }
    fn down<'id>(_: &mut Container<'id, A, M>, _: Range<'id>) { unreachable!() }
    fn down_n<'id>(_: &mut Container<'id, A, M>, _: Range<'id, NonEmpty>) { unreachable!() }
    fn twice<'a, 'id>(_: &'a mut Container<'id, A, M>, _: Range<'id>, _: Range<'id>) -> Option<(&'a mut [E], &'a mut [E])> { unreachable!() }
    fn zip<'id>(_: &mut Container<'id, A, M>, _: Range<'id>, _: Range<'id>, _: &mut dyn FnMut(*mut E, *mut E)) { unreachable!() }
    fn push<'id>(_: &mut Container<'id, A, M>, _: E) -> Index<'id> { unreachable!() }
    fn insert<'id>(_: &mut Container<'id, A, M>, _: Index<'id, Unknown>, _: E) { unreachable!() }
    fn insert_i<'id>(_: &mut Container<'id, A, M>, _: Index<'id>, _: E) { unreachable!() }
    fn clone<'id>(_: &Container<'id, A, M>) -> Option<Container<'id, A, M>> { None }
}

macro_rules! mutable {
    ($m:ty) => {
        const MUT: bool = true;
        fn at<'a, 'id>(c: &'a mut Container<'id, A, $m>, i: Index<'id>) -> &'a mut E { &mut c[i] }
        fn rng<'a, 'id>(c: &'a mut Container<'id, A, $m>, r: Range<'id>) -> &'a mut [E] { &mut c[r] }
        fn rng_n<'a, 'id>(c: &'a mut Container<'id, A, $m>, r: Range<'id, NonEmpty>) -> &'a mut [E] { &mut c[r] }
        fn from<'a, 'id>(c: &'a mut Container<'id, A, $m>, i: Index<'id, Unknown>) -> &'a mut [E] { &mut c[i..] }
        fn to<'a, 'id>(c: &'a mut Container<'id, A, $m>, i: Index<'id, Unknown>) -> &'a mut [E] { &mut c[..i] }
        fn from_i<'a, 'id>(c: &'a mut Container<'id, A, $m>, i: Index<'id>) -> &'a mut [E] { &mut c[i..] }
        fn to_i<'a, 'id>(c: &'a mut Container<'id, A, $m>, i: Index<'id>) -> &'a mut [E] { &mut c[..i] }
        fn swap<'id>(c: &mut Container<'id, A, $m>, i: Index<'id>, j: Index<'id>) { c.swap(i, j) }
        fn up<'id>(c: &mut Container<'id, A, $m>, r: Range<'id>) { c.rotate1_up(r) }
        fn up_n<'id>(c: &mut Container<'id, A, $m>, r: Range<'id, NonEmpty>) { c.rotate1_up(r) }
        fn down<'id>(c: &mut Container<'id, A, $m>, r: Range<'id>) { c.rotate1_down(r) }
        fn down_n<'id>(c: &mut Container<'id, A, $m>, r: Range<'id, NonEmpty>) { c.rotate1_down(r) }
        fn twice<'a, 'id>(c: &'a mut Container<'id, A, $m>, r: Range<'id>, s: Range<'id>) -> Option<(&'a mut [E], &'a mut [E])> {
            c.index_twice(r, s).ok()
        }
        fn zip<'id>(c: &mut Container<'id, A, $m>, r: Range<'id>, s: Range<'id>, f: &mut dyn FnMut(*mut E, *mut E)) {
            c.zip_mut_raw(r, s, |a, b| f(a, b))
        }
    };
}

/// shared slices and the like
pub struct Ro;
impl<E, A, M> Kind<E, A, M> for Ro
where
    A: Clone + FixedLength,
{
    fn clone<'id>(c: &Container<'id, A, M>) -> Option<Container<'id, A, M>> {
        Some(c.clone())
    }
}
/// exclusive storage, container in its default mode
pub struct Rw;
impl<E, A> Kind<E, A, ()> for Rw
where
    A: ContiguousMut<Item = E> + GetUncheckedMut,
{
    mutable!(());
    fn full<'a, 'id>(c: &'a mut Container<'id, A, ()>) -> Option<&'a mut [E]> {
        Some(&mut c[..])
    }
}
/// exclusive fixed storage, only-index mode
pub struct Ri;
impl<E, A> Kind<E, A, OnlyIndex> for Ri
where
    A: ContiguousMut<Item = E> + GetUncheckedMut,
{
    mutable!(OnlyIndex);
}
/// growable
pub struct Gr;
impl<E, A> Kind<E, A, OnlyIndex> for Gr
where
    A: ContiguousMut<Item = E> + GetUncheckedMut + Pushable,
{
    mutable!(OnlyIndex);
    const GROW: bool = true;
    fn push<'id>(c: &mut Container<'id, A, OnlyIndex>, e: E) -> Index<'id> { c.push(e) }
    fn insert<'id>(c: &mut Container<'id, A, OnlyIndex>, i: Index<'id, Unknown>, e: E) { c.insert(i, e) }
    fn insert_i<'id>(c: &mut Container<'id, A, OnlyIndex>, i: Index<'id>, e: E) { c.insert(i, e) }
}

/// How much of what one run does (swarm style: drawn per run).
#[derive(Clone)]
pub struct Mix {
    pub algebra: u32,
    pub read: u32,
    pub write: u32,
    pub scan: u32,
    pub grow: u32,
    pub clients: u32,
    pub crash: bool,
    pub grow_faults: bool,
}

pub struct Model {
    pub ids: Vec<u32>,
    pub steps: usize,
}

pub fn eq_ids<E: Elem>(got: &[E], exp: &[u32], tags: Tags, what: &str) -> bool {
    if got.len() != exp.len() {
        flag(tags, what, format!("{}: {} elements, should be {}", what, got.len(), exp.len()));
        return false;
    }
    let g = ids(got);
    if g != exp {
        flag(tags, what, format!("{}: elements {:?}, should be {:?}", what, g, exp));
        return false;
    }
    true
}

pub fn extent<E>(whole: &[E]) -> (usize, usize) {
    let r = whole.as_ptr_range();
    (r.start as usize, r.end as usize)
}
pub fn inside<E>(part: &[E], whole: (usize, usize), what: &str) {
    let a = extent(part);
    if !part.is_empty() && (a.0 < whole.0 || a.1 > whole.1) {
        flag(
            &["C01", "C05"],
            &format!("{}: outside the container", what),
            format!("{}: a slice of {} elements reaches outside the container", what, part.len()),
        );
        check_stop();
    }
}

pub fn verify<'id, E, A, M>(c: &Container<'id, A, M>, m: &Model, tags: Tags, what: &str)
where
    E: Elem,
    A: Contiguous<Item = E>,
{
    if c.len() != m.ids.len() {
        flag(&["C02", "C03", "C05"], "length", format!("after {}: length {} should be {}", what, c.len(), m.ids.len()));
        check_stop();
    }
    eq_ids(&c[..], &m.ids, tags, what);
}

pub fn read<'id, E, A, M>(c: &Container<'id, A, M>, m: &Model, p: &Pool<'id>)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
{
    let whole = extent(&c[..]);
    match choose(6) {
        0 | 1 => {
            if let Some((i, v)) = p.pick_i() {
                let e = &c[i];
                inside(std::slice::from_ref(e), whole, "c[i]");
                ev!("read [{}] = {}", v, e.id() as i32);
                eq_ids(std::slice::from_ref(e), &m.ids[v..v + 1], SEQ, "c[i]");
            }
        }
        2 => {
            if let Some((r, s, e)) = p.pick_r() {
                let g = &c[r];
                inside(g, whole, "c[r]");
                ev!("read [{}..{}]", s, e);
                eq_ids(g, &m.ids[s..e], SEQ, "c[r]");
            }
        }
        3 => {
            if let Some((r, s, e)) = p.pick_n() {
                let g = &c[r];
                inside(g, whole, "c[n]");
                ev!("read [{}..{}]", s, e);
                eq_ids(g, &m.ids[s..e], SEQ, "c[n]");
            }
        }
        4 => {
            if let Some((i, v)) = p.pick_edge() {
                let g = &c[i..];
                inside(g, whole, "c[i..]");
                eq_ids(g, &m.ids[v..], SEQ, "c[i..]");
            }
        }
        _ => {
            if let Some((i, v)) = p.pick_edge() {
                let g = &c[..i];
                inside(g, whole, "c[..i]");
                eq_ids(g, &m.ids[..v], SEQ, "c[..i]");
            }
        }
    }
    eq_ids(&c[..], &m.ids, SEQ, "c[..]");
}

/// Permutes and overwrites a mutable part, possibly crashing halfway.
pub fn scribble<E: Elem>(g: &mut [E], m: &mut [u32], may_crash: bool) {
    let n = g.len();
    for _ in 0..1 + choose(3) {
        if n == 0 {
            break;
        }
        match choose(3) {
            0 => {
                let (a, b) = (choose(n), choose(n));
                g.swap(a, b);
                m.swap(a, b);
            }
            1 => {
                let a = choose(n);
                let e = E::new(choose(10) as i32);
                m[a] = e.id();
                ev!("write +{} = {}", a, m[a]);
                g[a] = e;
            }
            _ => {
                g.reverse();
                m.reverse();
            }
        }
        if may_crash && chance(1, 8) {
            crash("client_crash_in_write");
        }
    }
}

pub fn write<'id, E, A, M, K>(c: &mut Container<'id, A, M>, m: &mut Model, p: &Pool<'id>, may_crash: bool)
where
    E: Elem,
    A: Contiguous<Item = E>,
    K: Kind<E, A, M>,
{
    let what: &str;
    let whole = extent(&c[..]);
    match choose(12) {
        0 | 1 => {
            what = "c[i] = x";
            if let Some((i, v)) = p.pick_i() {
                let g = K::at(c, i);
                inside(std::slice::from_ref(&*g), whole, what);
                eq_ids(std::slice::from_ref(&*g), &m.ids[v..v + 1], SEQ, what);
                check_stop();
                scribble(std::slice::from_mut(g), &mut m.ids[v..v + 1], may_crash);
            }
        }
        2 | 3 => {
            what = "swap";
            if let (Some((i, v)), Some((j, w))) = (p.pick_i(), p.pick_i()) {
                ev!("swap({}, {})", v, w);
                K::swap(c, i, j);
                m.ids.swap(v, w);
            }
        }
        4 => {
            what = "rotate1_up";
            if let Some((r, s, e)) = p.pick_any_range() {
                ev!("rotate1_up({}..{})", s, e);
                match if choose(2) == 0 { r.nonempty().ok() } else { None } {
                    Some(n) => K::up_n(c, n),
                    None => K::up(c, r),
                }
                m.ids[s..e].rotate_right(usize::from(s != e));
            }
        }
        5 => {
            what = "rotate1_down";
            if let Some((r, s, e)) = p.pick_any_range() {
                ev!("rotate1_down({}..{})", s, e);
                match if choose(2) == 0 { r.nonempty().ok() } else { None } {
                    Some(n) => K::down_n(c, n),
                    None => K::down(c, r),
                }
                m.ids[s..e].rotate_left(usize::from(s != e));
            }
        }
        6 => {
            what = "index_twice";
            if let (Some((mut r, mut s, mut e)), Some((mut q, mut t, mut f))) = (p.pick_any_range(), p.pick_any_range()) {
                if choose(3) == 0 {
                    std::mem::swap(&mut r, &mut q);
                    std::mem::swap(&mut s, &mut t);
                    std::mem::swap(&mut e, &mut f);
                }
                ev!("index_twice({}..{}, {}..{})", s, e, t, f);
                match K::twice(c, r, q) {
                    None => {
                        if e <= t {
                            flag(SEQ, what, format!("index_twice({}..{}, {}..{}) refused", s, e, t, f));
                        }
                    }
                    Some((a, b)) => {
                        if e > t {
                            flag(SEQ, what, format!("index_twice({}..{}, {}..{}) granted", s, e, t, f));
                            check_stop();
                        }
                        inside(a, whole, what);
                        inside(b, whole, what);
                        eq_ids(a, &m.ids[s..e], SEQ, what);
                        eq_ids(b, &m.ids[t..f], SEQ, what);
                        check_stop();
                        probe("index_twice granted");
                        let (x, y) = m.ids.split_at_mut(t);
                        if !a.is_empty() && !b.is_empty() && choose(2) == 0 {
                            std::mem::swap(&mut a[0], &mut b[0]);
                            std::mem::swap(&mut x[s], &mut y[0]);
                        }
                        scribble(a, &mut x[s..e], may_crash);
                        scribble(b, &mut y[..f - t], may_crash);
                    }
                }
            }
        }
        7 => {
            what = "zip_mut_raw";
            if let (Some((r, s, e)), Some((q, t, f))) = (p.pick_any_range(), p.pick_any_range()) {
                let n = (e - s).min(f - t);
                let stop = if may_crash && n > 0 && chance(1, 3) { choose(n + 1) } else { usize::MAX };
                ev!("zip_mut_raw({}..{}, {}..{})", s, e, t, f);
                let mut k = 0usize;
                K::zip(c, r, q, &mut |a, b| {
                    if k >= n {
                        flag(&["C14", "C05"], "zip_mut_raw: extra pair", format!("pair {} of {}", k + 1, n));
                        crate::sim::check_stop();
                    }
                    let (ra, rb) = unsafe { ((*a).id(), (*b).id()) };
                    if (ra, rb) != (m.ids[s + k], m.ids[t + k]) {
                        flag(&["C14", "C05"], "zip_mut_raw: pair", format!("pair {}: ({}, {})", k, ra, rb));
                        crate::sim::check_stop();
                    }
                    if k == stop {
                        crash("callback_panic");
                    }
                    unsafe { std::ptr::swap(a, b) };
                    m.ids.swap(s + k, t + k);
                    k += 1;
                });
                if k != n {
                    flag(&["C14", "C05"], "zip_mut_raw: pairs", format!("{} of {} pairs", k, n));
                }
            }
        }
        8 => {
            what = "c[r] mut";
            if let Some((r, s, e)) = p.pick_any_range() {
                let g = match if choose(2) == 0 { r.nonempty().ok() } else { None } {
                    Some(n) => K::rng_n(c, n),
                    None => K::rng(c, r),
                };
                inside(g, whole, what);
                eq_ids(g, &m.ids[s..e], SEQ, what);
                check_stop();
                scribble(g, &mut m.ids[s..e], may_crash);
            }
        }
        9 => {
            what = "c[i..] mut";
            let (g, v) = if choose(2) == 0 {
                let Some((i, v)) = p.pick_edge() else { return };
                (K::from(c, i), v)
            } else {
                let Some((i, v)) = p.pick_i() else { return };
                (K::from_i(c, i), v)
            };
            inside(g, whole, what);
            eq_ids(g, &m.ids[v..], SEQ, what);
            check_stop();
            scribble(g, &mut m.ids[v..], may_crash);
        }
        10 => {
            what = "c[..i] mut";
            let (g, v) = if choose(2) == 0 {
                let Some((i, v)) = p.pick_edge() else { return };
                (K::to(c, i), v)
            } else {
                let Some((i, v)) = p.pick_i() else { return };
                (K::to_i(c, i), v)
            };
            inside(g, whole, what);
            eq_ids(g, &m.ids[..v], SEQ, what);
            check_stop();
            scribble(g, &mut m.ids[..v], may_crash);
        }
        _ => {
            what = "c[..] mut";
            if let Some(g) = K::full(c) {
                eq_ids(g, &m.ids, SEQ, what);
                check_stop();
                scribble(g, &mut m.ids, may_crash);
            }
        }
    }
    verify(c, m, SEQ, what);
}

fn dropped(id: u32) -> bool {
    sim().toks.get(id as usize).is_some_and(|t| t.dropped)
}
/// (or needs no drop)
fn let_go(id: u32) -> bool {
    sim().toks.get(id as usize).is_some_and(|t| t.dropped || t.plain)
}

fn grow<'id, E, A, M, K>(c: &mut Container<'id, A, M>, m: &mut Model, p: &mut Pool<'id>, faults: bool)
where
    E: Elem,
    A: Contiguous<Item = E>,
    K: Kind<E, A, M>,
{
    let e = E::new(choose(10) as i32);
    let id = e.id();
    let armed = faults && chance(1, 2);
    if armed {
        // any of the allocations a growth makes may be the one that fails
        heap::arm(1 + weighted(&[5, 2, 1]) as i64);
        GROW_FAIL.store(chance(3, 4), SeqCst);
    }
    let moved0 = heap::counts();
    let before = m.ids.len();
    let mut at = before;
    let (what, r): (&str, Result<Option<Index<'id>>, &'static str>) = match choose(3) {
        0 | 1 if p.e.is_empty() || choose(2) == 0 => {
            ev!("push({})", id);
            ("push", attempt(|| Some(K::push(c, e))))
        }
        1 if !p.i.is_empty() => {
            let (i, v) = p.pick_i().unwrap();
            at = v;
            ev!("insert({}, {})", v, id);
            ("insert", attempt(|| {
                K::insert_i(c, i, e);
                None
            }))
        }
        _ => match p.pick_edge() {
            Some((i, v)) => {
                at = v;
                ev!("insert({}, {})", v, id);
                ("insert", attempt(|| {
                    K::insert(c, i, e);
                    None
                }))
            }
            None => ("push", attempt(|| Some(K::push(c, e)))),
        },
    };
    heap::arm(0);
    GROW_FAIL.store(false, SeqCst);
    let moved1 = heap::counts();
    crate::sim::fault_n("storage_relocated", moved1.1 - moved0.1);
    match r {
        Ok(i) => {
            m.ids.insert(at, id);
            if dropped(id) {
                flag(GROW, what, format!("{}: the element given was dropped", what));
                check_stop();
            }
            verify(c, m, GROWN, what);
            check_stop();
            if let Some(i) = i {
                // the index designates the new element
                p.put_i(m.ids.len(), GROW, "push", i, Some(at));
            }
        }
        Err(k) => {
            if k == "alloc_fail" {
                fault("alloc_fail");
            }
            ev!("{} failed: {}", what, k);
            if !let_go(id) {
                flag(GROW, what, format!("failed {}: the element given was not dropped", what));
            }
            verify(c, m, &["C02", "C05"], "failed growth");
            check_stop();
            probe("failed growth survived");
            // the answers of vetting do not depend on the failure
            for x in [before.wrapping_sub(1), before, before + 1] {
                if c.vet(x).is_ok() != (x < before) {
                    flag(&["C03", "C02"], "vet after failed growth", format!("vet({}) of {}", x, before));
                }
            }
        }
    }
}

/// A scan whose predicate's answers come from the tape; the predicate may run other clients'
/// operations on the same container, or panic.
pub fn scan<'id, E, A, M>(c: &Container<'id, A, M>, m: &Model, pools: &mut [Pool<'id>], me: usize, depth: usize, may_crash: bool)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
{
    const T: Tags = &["C06", "C11"];
    let len = m.ids.len();
    let kind = choose(3);
    let start_i = pools[me].pick_i();
    let start_r = pools[me].pick_any_range();
    let order: Vec<usize>;
    let what;
    match kind {
        0 => {
            let Some((_, v)) = start_i else { return };
            order = (v + 1..len).collect();
            what = "scan_from";
        }
        1 => {
            let Some((_, v)) = start_i else { return };
            order = (0..v).rev().collect();
            what = "scan_from_rev";
        }
        _ => {
            let Some((_, s, e)) = start_r else { return };
            order = (s..e).collect();
            what = "scan_range";
        }
    }
    let bias = 1 + choose(4);
    let mut k = 0usize;
    let mut stopped = false;
    ev!("{} begins, up to {}", what, order.len());
    let mut inside_pred = false;
    let mut pred = |e: &E| -> bool {
        inside_pred = true;
        if stopped || k >= order.len() {
            flag(T, what, format!("{} goes on after it should have stopped", what));
            check_stop();
        }
        if e.id() != m.ids[order[k]] {
            flag(T, what, format!("{} shows {} as element {}", what, e.id() as i32, k));
            check_stop();
        }
        k += 1;
        if may_crash && chance(1, 24) {
            crash("callback_panic");
        }
        if depth < 2 && chance(1, 5) {
            probe("nested operation in a callback");
            let other = choose(pools.len());
            match choose(3) {
                0 => scan(c, m, pools, other, depth + 1, may_crash),
                1 => read(c, m, &pools[other]),
                _ => algebra::step(c, &mut pools[other], len),
            }
            check_stop();
        }
        let go = !chance(1, 1 + bias);
        if !go {
            stopped = true;
        }
        inside_pred = false;
        go
    };
    let out: (Option<Range<'id, NonEmpty>>, Option<(Range<'id>, Range<'id>)>) = match kind {
        0 => (Some(c.scan_from(start_i.unwrap().0, &mut pred)), None),
        1 => (Some(c.scan_from_rev(start_i.unwrap().0, &mut pred)), None),
        _ => {
            let (r, ..) = start_r.unwrap();
            let two = match if choose(2) == 0 { r.nonempty().ok() } else { None } {
                Some(n) => {
                    let (a, b) = c.scan_range(n, &mut pred);
                    (plain(T, what, a), plain(T, what, b))
                }
                None => {
                    let (a, b) = c.scan_range(r, &mut pred);
                    (plain(T, what, a), plain(T, what, b))
                }
            };
            (None, Some(two))
        }
    };
    if inside_pred {
        flag(T, what, format!("{} returned although its predicate panicked", what));
        check_stop();
    }
    if !stopped && k != order.len() {
        flag(T, what, format!("{} stopped after {} of {} elements without a refusal", what, k, order.len()));
    }
    let acc = if stopped { k - 1 } else { k };
    let p = &mut pools[me];
    match (kind, out) {
        (0, (Some(n), _)) => {
            let v = start_i.unwrap().1;
            p.put_n(len, T, what, n, Some((v, v + 1 + acc)));
        }
        (1, (Some(n), _)) => {
            let v = start_i.unwrap().1;
            p.put_n(len, T, what, n, Some((v - acc, v + 1)));
        }
        (_, (_, Some((a, b)))) => {
            let (_, s, e) = start_r.unwrap();
            p.put_r(len, T, what, a, Some((s, s + acc)));
            p.put_r(len, T, what, b, Some((s + acc, e)));
        }
        _ => {}
    }
    verify(c, m, &["C05", "C06", "C11"], what);
}

/// One scope: clients take turns in an order decided by the tape.
pub fn session<'id, E, A, M, K>(c: &mut Container<'id, A, M>, m: &mut Model, mix: &Mix, steps: usize, kind: u64)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
    K: Kind<E, A, M>,
{
    let mut s = Session::new(c, m, kind);
    for _ in 0..steps {
        s.step::<E, K>(c, m, mix);
    }
}

/// The clients of one container.
pub struct Session<'id, A, M> {
    pools: Vec<Pool<'id>>,
    clones: Vec<Container<'id, A, M>>,
    last: usize,
    kind: u64,
}
impl<'id, A, M> Session<'id, A, M>
where
    A: Contiguous + GetUnchecked,
{
    pub fn new<E: Elem>(c: &Container<'id, A, M>, m: &Model, kind: u64) -> Self
    where
        A: Contiguous<Item = E>,
    {
        verify(c, m, &["C02", "C05"], "scope entry");
        check_stop();
        let n = 1 + choose(4);
        Session { pools: (0..n).map(|_| Pool::new()).collect(), clones: Vec::new(), last: 0, kind }
    }
    /// The clients carry on with the container in only-index mode.
    pub fn only_index(self) -> Session<'id, A, OnlyIndex> {
        let clones = self.clones.into_iter().map(|k| k.only_index()).collect();
        Session { pools: self.pools, clones, last: self.last, kind: self.kind }
    }
    pub fn step<E: Elem, K>(&mut self, c: &mut Container<'id, A, M>, m: &mut Model, mix: &Mix)
    where
        A: Contiguous<Item = E>,
        K: Kind<E, A, M>,
    {
        let Session { pools, clones, last, kind } = self;
        let (kind, n) = (*kind, pools.len());
        mark();
        let who = choose(n);
        if who != *last {
            nontrivial();
            *last = who;
        }
        let len = m.ids.len();
        m.steps += 1;
        if pools[who].count() == 0 {
            // a new or restarted client asks the container for something to hold
            algebra::step_op(c, &mut pools[who], len, 3);
            if len > 0 {
                algebra::step_op(c, &mut pools[who], len, 0);
                let i = c.vet(choose(len));
                if let Ok(i) = i {
                    pools[who].put_i(len, algebra::VET, "vet", i, None);
                }
            }
        }
        let w = [
            mix.algebra,
            mix.read,
            if K::MUT { mix.write } else { 0 },
            mix.scan,
            if K::GROW { mix.grow } else { 0 },
            mix.clients,
        ];
        ev!("client {}", who);
        let r = attempt(|| match weighted(&w) {
            0 => algebra::step(c, &mut pools[who], len),
            1 => {
                if !clones.is_empty() && choose(2) == 0 {
                    let k = choose(clones.len());
                    read(&clones[k], m, &pools[who]);
                } else {
                    read(c, m, &pools[who]);
                }
            }
            2 => write::<E, A, M, K>(c, m, &pools[who], mix.crash),
            3 => scan(c, m, pools, who, 0, mix.crash),
            4 => grow::<E, A, M, K>(c, m, &mut pools[who], mix.grow_faults),
            _ => match choose(5) {
                0 => {
                    // the client is gone; a new one takes its place
                    ev!("client {} restarts", who);
                    fault("client_restart");
                    pools[who] = Pool::new();
                }
                1 => {
                    if clones.len() < 3 {
                        if let Some(k) = K::clone(c) {
                            ev!("clone");
                            verify(&k, m, &["C05"], "clone");
                            clones.push(k);
                        }
                    }
                }
                2 if mix.crash && chance(1, 6) => crash("scope_abandoned"),
                _ => {
                    let to = choose(n);
                    let from = pools[who].clone();
                    ev!("client {} sends to {}", who, to);
                    pools[to].receive(&from);
                }
            },
        });
        check_stop();
        match r {
            Ok(()) => {}
            Err("scope_abandoned") => {
                std::panic::resume_unwind(Box::new(crate::sim::SimFault("scope_abandoned")))
            }
            Err(k) => {
                // only the client's step is lost
                ev!("client {} crashed: {}", who, k);
                pools[who] = Pool::new();
                verify(c, m, &["C02", "C05", "C06", "C11"], "client crash");
            }
        }
        for p in pools.iter() {
            p.audit(m.ids.len());
        }
        check_stop();
        let p = &pools[who];
        state(&[
            kind,
            m.ids.len() as u64,
            p.i.iter().map(|x| x.1 as u64 + 1).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
            p.n.iter().map(|x| (x.1 * 64 + x.2) as u64).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
            p.r.iter().map(|x| (x.1 * 64 + x.2) as u64).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
        ]);
    }
}

/// Runs a closure that opens a scope; true if the scope was abandoned by an injected panic.
pub fn epoch(f: impl FnOnce()) -> bool {
    match attempt(f) {
        Ok(()) => false,
        Err("scope_abandoned") => {
            ev!("scope abandoned");
            true
        }
        Err(k) => {
            flag(&["*"], "escaped-fault", format!("fault {} left the scope", k));
            check_stop();
            true
        }
    }
}

pub fn keys(n: usize) -> Vec<i32> {
    seq(n, 10).into_iter().map(|x| x as i32).collect()
}

pub fn length(big: bool) -> usize {
    match choose(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        7 if big => match choose(8) {
            7 => 100 + choose(1000),
            _ => 20 + choose(60),
        },
        _ => 1 + choose(14),
    }
}

/// The storage itself: its bounds, slices and elements are the same however one asks.
fn contract<E: Elem, A>(mut a: A, m: &Model, what: &str)
where
    A: ContiguousMut<Item = E> + GetUncheckedMut,
{
    let n = m.ids.len();
    let size = std::mem::size_of::<E>();
    let slice = extent(a.as_slice());
    let from = a.begin() as usize;
    let seen = [
        ("base_len", a.base_len() * size + from),
        ("end", a.end() as usize),
        ("end of as_slice", slice.1),
        ("begin_mut", a.begin_mut() as usize + n * size),
        ("end_mut", a.end_mut() as usize),
        ("as_mut_slice", a.as_mut_slice().as_ptr() as usize + n * size),
        ("end of as_mut_slice", a.as_mut_slice().as_ptr_range().end as usize),
    ];
    for (name, end) in seen {
        if slice.0 != from || end != from + n * size {
            flag(
                &["C01", "C05", "C13"],
                &format!("storage: {}", name),
                format!("{} of {} elements of {} bytes: {} is at {:+}", what, n, size, name, end as i64 - from as i64),
            );
            return;
        }
    }
    eq_ids(a.as_slice(), &m.ids, SEQ, what);
    if n > 0 {
        let k = choose(n);
        unsafe {
            eq_ids(std::slice::from_ref(a.xget_unchecked(k)), &m.ids[k..k + 1], SEQ, what);
            eq_ids(std::slice::from_ref(&*a.xget_unchecked_mut(k)), &m.ids[k..k + 1], SEQ, what);
        }
    }
}

/// Two containers in use at the same time: what happens to one does not concern the other.
fn pair_run<E: Elem, F: Elem>(mix: &Mix, steps: usize) {
    probe("two containers");
    let mut a: Arena<E> = Arena::new(&keys(length(false)));
    let mut ma = Model { ids: a.ids(), steps: 0 };
    let mut b: SimStore<F> = SimStore::new(&keys(length(false)));
    let mut mb = Model { ids: b.a.ids(), steps: 0 };
    for _ in 0..1 + choose(2) {
        ev!("scopes over {} and {} elements", ma.ids.len(), mb.ids.len());
        epoch(|| {
            scope(a.slice_mut(), |mut c| {
                scope(&mut b, |d| {
                    let mut d = d.only_index();
                    let mut s = Session::new(&c, &ma, 13);
                    let mut t = Session::new(&d, &mb, 14);
                    for _ in 0..steps {
                        if choose(2) == 0 {
                            s.step::<E, Rw>(&mut c, &mut ma, mix);
                        } else {
                            t.step::<F, Gr>(&mut d, &mut mb, mix);
                        }
                    }
                    verify(&c, &ma, &["C05"], "the other container's operations");
                    verify(&d, &mb, &["C05"], "the other container's operations");
                })
            })
        });
        check_stop();
        a.check_guards("history");
        b.a.check_guards("history");
        eq_ids(a.slice(), &ma.ids, &["C02", "C05"], "after the scope");
        eq_ids(b.a.slice(), &mb.ids, &["C02", "C05"], "after the scope");
        check_stop();
    }
}

/// A container that starts out in the default mode and is then turned into an only-index one.
fn turn<'id, E: Elem, A>(mut c: Container<'id, A>, m: &mut Model, mix: &Mix, steps: usize, kind: u64)
where
    A: ContiguousMut<Item = E> + GetUncheckedMut + Pushable,
{
    let first = choose(steps);
    let mut s = Session::new(&c, m, kind);
    for _ in 0..first {
        s.step::<E, Rw>(&mut c, m, mix);
    }
    ev!("only index from here");
    let mut s = s.only_index();
    let mut c = c.only_index();
    for _ in first..steps {
        s.step::<E, Gr>(&mut c, m, mix);
    }
}

/// Slices of any element type in a guarded arena.
fn arena_run<E: Elem>(mix: &Mix, steps: usize) {
    let n = length(true);
    let mut a: Arena<E> = Arena::new(&keys(n));
    let mut m = Model { ids: a.ids(), steps: 0 };
    contract(a.slice_mut(), &m, "&mut [T]");
    contract(&mut a.slice_mut(), &m, "&mut &mut [T]");
    for _ in 0..1 + choose(3) {
        match choose(6) {
            0 => {
                ev!("scope over &mut [T], {} elements", n);
                epoch(|| scope(a.slice_mut(), |mut c| session::<E, _, _, Rw>(&mut c, &mut m, mix, steps, 1)));
            }
            1 => {
                ev!("scope over &mut [T], only index, {} elements", n);
                epoch(|| {
                    scope(a.slice_mut(), |c| {
                        session::<E, _, _, Ri>(&mut c.only_index(), &mut m, mix, steps, 2)
                    })
                });
            }
            2 => {
                ev!("scope over &[T], {} elements", n);
                epoch(|| scope(a.slice(), |mut c| session::<E, _, _, Ro>(&mut c, &mut m, mix, steps, 3)));
            }
            3 => {
                ev!("scope over &mut storage, {} elements", n);
                epoch(|| scope(&mut a, |mut c| session::<E, _, _, Rw>(&mut c, &mut m, mix, steps, 4)));
            }
            4 => {
                ev!("scope over &storage, {} elements", n);
                epoch(|| scope(&a, |mut c| session::<E, _, _, Ro>(&mut c, &mut m, mix, steps, 5)));
            }
            _ => {
                ev!("scope over a part of &mut [T], {} elements", n);
                let x = choose(n + 1);
                let y = x + choose(n - x + 1);
                let mut part = Model { ids: m.ids[x..y].to_vec(), steps: 0 };
                epoch(|| {
                    scope(&mut a.slice_mut()[x..y], |mut c| session::<E, _, _, Rw>(&mut c, &mut part, mix, steps, 1))
                });
                m.ids.splice(x..y, part.ids);
            }
        }
        check_stop();
        a.check_guards("history");
        eq_ids(a.slice(), &m.ids, &["C02", "C05"], "after the scope");
        check_stop();
    }
}

/// Growable storage defined by the simulator.
fn store_run<E: Elem>(mix: &Mix, steps: usize) {
    let mut a: SimStore<E> = SimStore::new(&keys(length(false)));
    let mut m = Model { ids: a.a.ids(), steps: 0 };
    for _ in 0..1 + choose(3) {
        ev!("scope over growable storage, {} elements", m.ids.len());
        match choose(4) {
            3 => epoch(|| scope(&mut a, |c| turn(c, &mut m, mix, steps, 15))),
            0 | 1 => epoch(|| {
                scope(&mut a, |c| session::<E, _, _, Gr>(&mut c.only_index(), &mut m, mix, steps, 6))
            }),
            _ => epoch(|| {
                let mut b = &mut a;
                scope(&mut b, |c| session::<E, _, _, Gr>(&mut c.only_index(), &mut m, mix, steps, 7))
            }),
        };
        check_stop();
        a.a.check_guards("history");
        eq_ids(a.a.slice(), &m.ids, &["C02", "C05"], "after the scope");
        check_stop();
    }
}

/// Unused capacity behind the elements of a `Vec`.
#[cfg(feature = "std_lib")]
pub fn spare() -> usize {
    [0, 1, 2 + choose(30)][weighted(&[2, 1, 1])]
}

#[cfg(feature = "std_lib")]
fn vec_run<E: Elem>(mix: &Mix, steps: usize) {
    let ks = keys(length(true));
    heap::FENCED.store(choose(3) == 2, std::sync::atomic::Ordering::SeqCst);
    let mut v: Vec<E> = Vec::with_capacity(ks.len() + spare());
    v.extend(ks.iter().map(|k| E::new(*k)));
    let mut m = Model { ids: ids(&v), steps: 0 };
    for _ in 0..1 + choose(3) {
        contract(&mut v, &m, "&mut Vec");
        match choose(7) {
            6 => {
                ev!("scope over &mut Vec, {} elements", v.len());
                epoch(|| scope(&mut v, |c| turn(c, &mut m, mix, steps, 16)));
            }
            5 => {
                ev!("scope over &mut &mut Vec, only index, {} elements", v.len());
                let mut w = &mut v;
                epoch(|| scope(&mut w, |c| session::<E, _, _, Gr>(&mut c.only_index(), &mut m, mix, steps, 12)));
            }
            0 | 1 => {
                ev!("scope over &mut Vec, only index, {} elements", v.len());
                epoch(|| scope(&mut v, |c| session::<E, _, _, Gr>(&mut c.only_index(), &mut m, mix, steps, 8)));
            }
            2 => {
                ev!("scope over &mut Vec, {} elements", v.len());
                epoch(|| scope(&mut v, |mut c| session::<E, _, _, Rw>(&mut c, &mut m, mix, steps, 9)));
            }
            3 => {
                ev!("scope over Vec, only index, {} elements", v.len());
                let own = std::mem::take(&mut v);
                epoch(|| scope(own, |c| session::<E, _, _, Gr>(&mut c.only_index(), &mut m, mix, steps, 10)));
                gone(&m);
                return;
            }
            _ => {
                ev!("scope over Vec, {} elements", v.len());
                let own = std::mem::take(&mut v);
                epoch(|| scope(own, |mut c| session::<E, _, _, Rw>(&mut c, &mut m, mix, steps, 11)));
                gone(&m);
                return;
            }
        }
        check_stop();
        eq_ids(&v, &m.ids, &["C02", "C05"], "after the scope");
        check_stop();
    }
}

/// Owned storage is dropped with its scope.
#[allow(dead_code)]
fn gone(m: &Model) {
    check_stop();
    let left: Vec<u32> = m.ids.iter().copied().filter(|i| !let_go(*i)).collect();
    if !left.is_empty() {
        flag(GROW, "owned storage outlives its scope", format!("elements {:?} not dropped", left));
    }
    check_stop();
}

fn huge_steps<'id, A, M>(c: &mut Container<'id, A, M>, mut len: usize, steps: usize, push: Option<fn(&mut Container<'id, A, M>) -> Index<'id>>)
where
    A: Contiguous<Item = ()> + GetUnchecked,
{
    let mut pools: Vec<Pool<'id>> = (0..2).map(|_| Pool::new()).collect();
    for _ in 0..steps {
        mark();
        let who = choose(2);
        if pools[who].count() < 2 {
            algebra::step_op(c, &mut pools[who], len, 3);
            algebra::step_op(c, &mut pools[who], len, 0);
        }
        if let (Some(push), true) = (push, len < isize::MAX as usize) {
            if chance(1, 8) {
                let i = push(c);
                len += 1;
                if c.len() != len {
                    flag(&["C02", "C03"], "length", format!("length {} should be {}", c.len(), len));
                    check_stop();
                }
                pools[who].put_i(len, GROW, "push", i, Some(len - 1));
            }
        }
        algebra::step(c, &mut pools[who], len);
        check_stop();
        if let Some((r, s, e)) = pools[who].pick_any_range() {
            if c[r].len() != e - s {
                flag(&["C05", "C01"], "c[r] of a huge container", format!("{}..{}: {}", s, e, c[r].len()));
            }
        }
        if let Some((i, v)) = pools[who].pick_edge() {
            if c[i..].len() != len - v || c[..i].len() != v {
                flag(&["C05", "C01"], "c[i..] of a huge container", format!("{} of {}", v, len));
            }
        }
        for p in &pools {
            p.audit(len);
        }
        check_stop();
    }
}

/// Containers of zero-sized elements, as long as containers get.
pub fn huge_run(steps: usize) {
    nontrivial();
    probe("huge container");
    let max = isize::MAX as usize;
    let len = match choose(4) {
        0 => max,
        1 => max - 1 - choose(6),
        2 => max / 2 + choose(3),
        _ => 1 << (20 + choose(42)),
    };
    ev!("scope over {} zero-sized elements", len);
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(len) };
    match choose(3) {
        0 => scope(&v[..], |mut c| huge_steps(&mut c, len, steps, None)),
        #[cfg(feature = "std_lib")]
        1 => scope(&mut v, |c| {
            huge_steps(&mut c.only_index(), len, steps, Some(|c| c.push(())))
        }),
        _ => scope(&mut v[..], |mut c| huge_steps(&mut c, len, steps, None)),
    }
}

pub fn run(mut mix: Mix, huge: u32, growable: u32) {
    // swarm: leave some kinds of operation out of some runs
    if chance(1, 4) {
        mix.scan = 0;
    }
    if chance(1, 4) {
        mix.algebra = mix.algebra / 3 + 1;
    }
    mix.crash = chance(1, 2);
    mix.grow_faults = chance(1, 2);
    let steps = [6, 15, 30, 60][weighted(&[2, 3, 3, 2])];
    match weighted(&[12, 2 * growable, 2 * growable, 2 * huge, 3]) {
        4 => match choose(4) {
            3 => pair_run::<Word, Small>(&mix, steps),
            0 => pair_run::<Tok, Small>(&mix, steps),
            1 => pair_run::<Big, Tok>(&mix, steps),
            _ => pair_run::<Tok, Tok>(&mix, steps),
        },
        0 => match choose(5) {
            3 => arena_run::<Word>(&mix, steps),
            4 => arena_run::<Pair>(&mix, steps),
            0 => arena_run::<Tok>(&mix, steps),
            1 => arena_run::<Small>(&mix, steps),
            _ => arena_run::<Big>(&mix, steps),
        },
        1 => {
            #[cfg(feature = "std_lib")]
            match choose(5) {
                4 => vec_run::<Word>(&mix, steps),
                0 | 1 => vec_run::<Tok>(&mix, steps),
                2 => vec_run::<Small>(&mix, steps),
                _ => vec_run::<Big>(&mix, steps),
            }
            #[cfg(not(feature = "std_lib"))]
            store_run::<Big>(&mix, steps);
        }
        2 => match choose(3) {
            2 => store_run::<Word>(&mix, steps),
            0 => store_run::<Small>(&mix, steps),
            _ => store_run::<Tok>(&mix, steps),
        },
        3 => huge_run(steps),
        _ => unreachable!(),
    }
}

pub const BASE: Mix = Mix { algebra: 8, read: 3, write: 3, scan: 2, grow: 3, clients: 2, crash: false, grow_faults: false };

pub fn c01() {
    run(Mix { algebra: 12, ..BASE }, 2, 4)
}
pub fn c02() {
    run(Mix { algebra: 5, write: 3, grow: 10, ..BASE }, 1, 12)
}
pub fn c03() {
    run(Mix { algebra: 16, read: 1, write: 1, grow: 4, ..BASE }, 4, 4)
}
pub fn c05() {
    run(Mix { algebra: 8, read: 5, write: 10, grow: 3, ..BASE }, 1, 4)
}
/// The algebra of ranges as clients use it, for the division property.
pub fn c04() {
    run(Mix { algebra: 20, read: 1, write: 1, grow: 2, ..BASE }, 4, 3)
}

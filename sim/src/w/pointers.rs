//! C13: pointers, pointer ranges and pointer slices, by several clients of one container.

use super::algebra::{Proof, Tags};
use super::history::{eq_ids, extent, keys, length, scribble};
use crate::elem::{ids, Big, Elem, Pair, Small, Tok, Word};
use crate::ev;
use crate::sim::{
    attempt, attempt_any, chance, check_stop, choose, crash, fault, flag, flag_known, mark, nontrivial, pick, probe, state,
    weighted,
};
use crate::store::Arena;
use indexing::container_traits::*;
use indexing::pointer::{PIndex, PRange, PRangeIter, PSlice, PointerRange};
use indexing::proof::Provable;
use indexing::{scope, Container, NonEmpty, Unknown};

const T: Tags = &["C13"];
const TS: Tags = &["C13", "C06"];

#[derive(Clone)]
pub struct Mix {
    pub algebra: u32,
    pub read: u32,
    pub write: u32,
    pub scan: u32,
    pub clients: u32,
    pub split: u32,
    pub index: u32,
}

pub trait Kind<E: Elem, A> {
    const MUT: bool = false;
    fn rng<'a, 'id, P>(_: &'a mut Container<'id, A>, _: PRange<'id, E, P>) -> &'a mut [E] { unreachable!() }
    fn from<'a, 'id, P>(_: &'a mut Container<'id, A>, _: PIndex<'id, E, P>) -> &'a mut [E] { unreachable!() }
    fn to<'a, 'id, P>(_: &'a mut Container<'id, A>, _: PIndex<'id, E, P>) -> &'a mut [E] { unreachable!() }
    fn swap<'id>(_: &mut Container<'id, A>, _: PIndex<'id, E>, _: PIndex<'id, E>) { unreachable!() }
    fn rot<'id>(_: &mut Container<'id, A>, _: PRange<'id, E, NonEmpty>) { unreachable!() }
    fn iswap<'id>(_: &mut Container<'id, A>, _: usize, _: usize) { unreachable!() }
    fn full<'a, 'id>(_: &'a mut Container<'id, A>) -> &'a mut [E] { unreachable!() }
    fn split<'id, R>(
        _: &mut Container<'id, A>,
        _: PIndex<'id, E, Unknown>,
        _: impl for<'x, 'y> FnOnce(Container<'x, &mut [E]>, PRange<'x, E>, Container<'y, &mut [E]>, PRange<'y, E, Unknown>) -> R,
    ) -> R {
        unreachable!()
    }
    fn split_n<'id, R>(
        _: &mut Container<'id, A>,
        _: PIndex<'id, E>,
        _: impl for<'x, 'y> FnOnce(Container<'x, &mut [E]>, PRange<'x, E>, Container<'y, &mut [E]>, PRange<'y, E, NonEmpty>) -> R,
    ) -> R {
        unreachable!()
    }
    fn clone<'id>(_: &Container<'id, A>) -> Option<Container<'id, A>> { None }
}

pub struct Ro;
impl<E: Elem, A: Clone + FixedLength> Kind<E, A> for Ro {
    fn clone<'id>(c: &Container<'id, A>) -> Option<Container<'id, A>> {
        Some(c.clone())
    }
}
pub struct Rw;
impl<E: Elem, A: ContiguousMut<Item = E> + GetUncheckedMut> Kind<E, A> for Rw {
    const MUT: bool = true;
    fn rng<'a, 'id, P>(c: &'a mut Container<'id, A>, r: PRange<'id, E, P>) -> &'a mut [E] { &mut c[r] }
    fn from<'a, 'id, P>(c: &'a mut Container<'id, A>, p: PIndex<'id, E, P>) -> &'a mut [E] { &mut c[p..] }
    fn to<'a, 'id, P>(c: &'a mut Container<'id, A>, p: PIndex<'id, E, P>) -> &'a mut [E] { &mut c[..p] }
    fn swap<'id>(c: &mut Container<'id, A>, i: PIndex<'id, E>, j: PIndex<'id, E>) { c.swap_ptr(i, j) }
    fn rot<'id>(c: &mut Container<'id, A>, r: PRange<'id, E, NonEmpty>) { c.rotate1_prange(r) }
    fn iswap<'id>(c: &mut Container<'id, A>, i: usize, j: usize) {
        let (i, j) = (c.vet(i).unwrap(), c.vet(j).unwrap());
        c.swap(i, j)
    }
    fn full<'a, 'id>(c: &'a mut Container<'id, A>) -> &'a mut [E] { &mut c[..] }
    fn split<'id, R>(
        c: &mut Container<'id, A>,
        p: PIndex<'id, E, Unknown>,
        f: impl for<'x, 'y> FnOnce(Container<'x, &mut [E]>, PRange<'x, E>, Container<'y, &mut [E]>, PRange<'y, E, Unknown>) -> R,
    ) -> R {
        c.split_container_at_pointer(p, f)
    }
    fn split_n<'id, R>(
        c: &mut Container<'id, A>,
        p: PIndex<'id, E>,
        f: impl for<'x, 'y> FnOnce(Container<'x, &mut [E]>, PRange<'x, E>, Container<'y, &mut [E]>, PRange<'y, E, NonEmpty>) -> R,
    ) -> R {
        c.split_container_at_pointer(p, f)
    }
}

const CAP: usize = 6;

/// The pointer particles one client holds, each with the position(s) it must designate.
pub struct Pool<'id, E> {
    base: usize,
    len: usize,
    p: Vec<(PIndex<'id, E>, usize)>,
    u: Vec<(PIndex<'id, E, Unknown>, usize)>,
    r: Vec<(PRange<'id, E>, usize, usize)>,
    n: Vec<(PRange<'id, E, NonEmpty>, usize, usize)>,
    s: Vec<(PSlice<'id, E>, usize, usize)>,
    t: Vec<(PSlice<'id, E, NonEmpty>, usize, usize)>,
    it: Vec<(PRangeIter<'id, E>, usize, usize)>,
    at: usize,
}
impl<'id, E> Clone for Pool<'id, E> {
    fn clone(&self) -> Self {
        Pool {
            base: self.base,
            len: self.len,
            p: self.p.clone(),
            u: self.u.clone(),
            r: self.r.clone(),
            n: self.n.clone(),
            s: self.s.clone(),
            t: self.t.clone(),
            it: self.it.clone(),
            at: self.at,
        }
    }
}

fn keep<X>(v: &mut Vec<X>, at: &mut usize, x: X) {
    if v.len() < CAP {
        v.push(x)
    } else {
        *at += 1;
        let k = *at % CAP;
        v[k] = x
    }
}
fn any<X: Copy>(v: &[X]) -> Option<X> {
    if v.is_empty() { None } else { Some(v[choose(v.len())]) }
}

/// A pointer range as one without a promise, after checking whatever it does promise.
fn pplain<'id, E, P: Proof>(tags: Tags, what: &str, r: PRange<'id, E, P>) -> PRange<'id, E> {
    if P::NE && std::mem::size_of::<E>() > 0 && r.first().ptr() >= r.past_the_end().ptr() {
        flag(tags, what, format!("{}: an empty pointer range was given as non-empty", what));
        check_stop();
    }
    r.no_proof()
}

impl<'id, E> Pool<'id, E> {
    pub fn new(whole: (usize, usize)) -> Self {
        Pool {
            base: whole.0,
            len: (whole.1 - whole.0) / std::mem::size_of::<E>(),
            p: vec![],
            u: vec![],
            r: vec![],
            n: vec![],
            s: vec![],
            t: vec![],
            it: vec![],
            at: 0,
        }
    }
    fn count(&self) -> usize {
        self.p.len() + self.u.len() + self.r.len() + self.n.len() + self.s.len() + self.t.len() + self.it.len()
    }
    /// The position a pointer designates (as a signed number), or None if it is between elements.
    fn pos(&self, p: *const E) -> Option<isize> {
        let d = (p as usize).wrapping_sub(self.base) as isize;
        let z = std::mem::size_of::<E>() as isize;
        if d % z == 0 { Some(d / z) } else { None }
    }
    fn put_p(&mut self, tags: Tags, what: &str, g: PIndex<'id, E>, exp: usize) {
        let v = self.pos(g.ptr());
        ev!("{} -> p{:?}", what, v);
        if v != Some(exp as isize) || exp >= self.len || g.ptr_mut() as *const E != g.ptr() {
            return flag(tags, what, format!("{}: pointer to {:?}, should be {} (of {})", what, v, exp, self.len));
        }
        keep(&mut self.p, &mut self.at, (g, exp));
    }
    fn put_u<P: Proof>(&mut self, tags: Tags, what: &str, g: PIndex<'id, E, P>, exp: usize) {
        let v = self.pos(g.ptr());
        if P::NE && exp >= self.len {
            return flag(tags, what, format!("{}: pointer to {} of {} given as dereferenceable", what, exp, self.len));
        }
        ev!("{} -> u{:?}", what, v);
        if v != Some(exp as isize) || exp > self.len || g.ptr_mut() as *const E != g.ptr() {
            return flag(tags, what, format!("{}: edge pointer to {:?}, should be {} (of {})", what, v, exp, self.len));
        }
        keep(&mut self.u, &mut self.at, (g.no_proof(), exp));
    }
    fn bad<P>(&self, tags: Tags, what: &str, g: PRange<'id, E, P>, exp: (usize, usize)) -> bool {
        let v = (self.pos(g.first().ptr()), self.pos(g.past_the_end().ptr()));
        ev!("{} -> {:?}", what, v);
        if v != (Some(exp.0 as isize), Some(exp.1 as isize)) || exp.1 > self.len || exp.0 > exp.1 {
            flag(tags, what, format!("{}: pointer range {:?}, should be {:?} (of {})", what, v, exp, self.len));
            return true;
        }
        if g.len() != exp.1 - exp.0 || g.is_empty() != (exp.0 == exp.1) {
            flag(tags, what, format!("{}: pointer range {:?}: length {}, empty {}", what, exp, g.len(), g.is_empty()));
        }
        false
    }
    fn bad_slice<P>(&self, tags: Tags, what: &str, g: PSlice<'id, E, P>, exp: (usize, usize)) -> bool {
        let v = (self.pos(g.first().ptr()), g.len());
        ev!("{} -> {:?}+{}", what, v.0, v.1);
        if v != (Some(exp.0 as isize), exp.1.wrapping_sub(exp.0)) || exp.1 > self.len || exp.0 > exp.1 {
            flag(tags, what, format!("{}: pointer slice {:?}+{}, should be {:?} (of {})", what, v.0, v.1, exp, self.len));
            return true;
        }
        if g.is_empty() != (exp.0 == exp.1) || self.pos(g.past_the_end().ptr()) != Some(exp.1 as isize) {
            flag(tags, what, format!("{}: pointer slice {:?}: empty {}, end {:?}", what, exp, g.is_empty(), self.pos(g.past_the_end().ptr())));
        }
        false
    }
    pub fn put_r<P: Proof>(&mut self, tags: Tags, what: &str, g: PRange<'id, E, P>, s: usize, e: usize) {
        if P::NE && s >= e {
            return flag(tags, what, format!("{}: a non-empty pointer range should not exist for {}..{}", what, s, e));
        }
        if !self.bad(tags, what, g, (s, e)) {
            keep(&mut self.r, &mut self.at, (g.no_proof(), s, e));
        }
    }
    pub fn put_n(&mut self, tags: Tags, what: &str, g: PRange<'id, E, NonEmpty>, s: usize, e: usize) {
        if s >= e {
            return flag(tags, what, format!("{}: a non-empty pointer range should not exist for {}..{}", what, s, e));
        }
        if !self.bad(tags, what, g, (s, e)) {
            keep(&mut self.n, &mut self.at, (g, s, e));
        }
    }
    fn put_s<P: Proof>(&mut self, tags: Tags, what: &str, g: PSlice<'id, E, P>, s: usize, e: usize) {
        if P::NE && s >= e {
            return flag(tags, what, format!("{}: a non-empty pointer slice should not exist for {}..{}", what, s, e));
        }
        if !self.bad_slice(tags, what, g, (s, e)) {
            keep(&mut self.s, &mut self.at, (g.no_proof(), s, e));
        }
    }
    fn put_t(&mut self, tags: Tags, what: &str, g: PSlice<'id, E, NonEmpty>, s: usize, e: usize) {
        if s >= e {
            return flag(tags, what, format!("{}: a non-empty pointer slice should not exist for {}..{}", what, s, e));
        }
        if !self.bad_slice(tags, what, g, (s, e)) {
            keep(&mut self.t, &mut self.at, (g, s, e));
        }
    }
    fn edge(&self) -> Option<(PIndex<'id, E, Unknown>, usize)> {
        if self.u.is_empty() || (choose(2) == 1 && !self.p.is_empty()) {
            any(&self.p).map(|(p, v)| (p.no_proof(), v))
        } else {
            any(&self.u)
        }
    }
    pub fn any_range(&self) -> Option<(PRange<'id, E>, usize, usize)> {
        if self.r.is_empty() || (choose(2) == 1 && !self.n.is_empty()) {
            any(&self.n).map(|(r, s, e)| (r.no_proof(), s, e))
        } else {
            any(&self.r)
        }
    }
    fn audit(&self) {
        for &(g, v) in &self.p {
            if self.pos(g.ptr()) != Some(v as isize) {
                flag(T, "held pointer", format!("pointer to {} moved", v));
            }
        }
        for &(g, s, e) in &self.n {
            if (self.pos(g.first().ptr()), self.pos(g.past_the_end().ptr())) != (Some(s as isize), Some(e as isize)) {
                flag(T, "held range", format!("range {}..{} moved", s, e));
            }
        }
    }
}

/// One derivation of a particle.
fn derive<'id, E, A>(c: &Container<'id, A>, p: &mut Pool<'id, E>)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
{
    let len = p.len;
    match choose(30) {
        0 => {
            let r = c.pointer_range();
            p.put_r(T, "pointer_range", r, 0, len)
        }
        1 => {
            let s = c.pointer_slice();
            p.put_s(T, "pointer_slice", s, 0, len)
        }
        2 => {
            if let Some((q, v)) = p.edge() {
                match choose(3) {
                    0 => p.put_r(T, "pointer_range_of(..p)", c.pointer_range_of(..q), 0, v),
                    1 => p.put_r(T, "pointer_range_of(p..)", c.pointer_range_of(q..), v, len),
                    _ => p.put_r(T, "pointer_range_of(..)", c.pointer_range_of::<Unknown, _>(..), 0, len),
                }
            }
        }
        3 => {
            if let Some((q, v)) = any(&p.p) {
                match choose(2) {
                    0 => p.put_r(T, "pointer_range_of(..p)", c.pointer_range_of(..q), 0, v),
                    _ => p.put_r(T, "pointer_range_of(p..)", c.pointer_range_of(q..), v, len),
                }
            }
        }
        4 | 5 => {
            if let (Some((a, v)), Some((b, w))) = (p.edge(), p.edge()) {
                match c.nonempty_range(a, b) {
                    Ok(r) => {
                        if v >= w {
                            return flag(T, "nonempty_range", format!("nonempty_range({}, {}) granted", v, w));
                        }
                        p.put_n(T, "nonempty_range", r, v, w)
                    }
                    Err(_) => {
                        if v < w {
                            flag(T, "nonempty_range", format!("nonempty_range({}, {}) refused", v, w))
                        }
                    }
                }
            }
        }
        6 => {
            if let Some((q, v)) = p.edge() {
                if c.distance_to(q) != v {
                    flag(T, "distance_to", format!("distance_to({}) = {}", v, c.distance_to(q)))
                }
            }
            if let Some((q, v)) = any(&p.p) {
                if c.distance_to(q) != v {
                    flag(T, "distance_to", format!("distance_to({}) = {}", v, c.distance_to(q)))
                }
            }
        }
        7 => {
            if let Some((q, v)) = any(&p.p) {
                let (a, b) = c.split_at_pointer(q);
                p.put_r(T, "split_at_pointer.0", a, 0, v);
                p.put_n(T, "split_at_pointer.1", b, v, len)
            }
        }
        8 => {
            if let Some((q, v)) = p.edge() {
                let (a, b) = c.split_at_pointer(q);
                p.put_r(T, "split_at_pointer.0", a, 0, v);
                p.put_r(T, "split_at_pointer.1", b, v, len)
            }
        }
        9 => {
            if let Some((q, v)) = any(&p.p) {
                p.put_u(T, "after", q.after(), v + 1);
                p.put_u(T, "no_proof", q.no_proof(), v)
            }
        }
        10 => {
            if let (Some((a, v)), Some((b, w))) = (any(&p.p), any(&p.p)) {
                if (a == b) != (v == w) {
                    flag(T, "pointer ==", format!("{} and {}", v, w))
                }
            }
            if let (Some((a, v)), Some((b, w))) = (p.edge(), p.edge()) {
                if (a == b) != (v == w) {
                    flag(T, "pointer ==", format!("{} and {}", v, w))
                }
            }
        }
        11 => {
            if let (Some((a, s, e)), Some((b, t, f))) = (p.any_range(), any(&p.n)) {
                if (a == b) != ((s, e) == (t, f)) {
                    flag(T, "range ==", format!("{}..{} and {}..{}", s, e, t, f))
                }
            }
            if let (Some((a, s, e)), Some((b, t, f))) = (any(&p.s), any(&p.t)) {
                if (a == b) != ((s, e) == (t, f)) {
                    flag(T, "slice ==", format!("{}..{} and {}..{}", s, e, t, f))
                }
            }
        }
        12 => {
            if let Some((r, s, e)) = p.any_range() {
                match r.nonempty() {
                    Ok(n) => {
                        if s == e {
                            return flag(T, "PRange::nonempty", format!("{}..{} granted", s, e));
                        }
                        p.put_n(T, "PRange::nonempty", n, s, e)
                    }
                    Err(_) => {
                        if s != e {
                            flag(T, "PRange::nonempty", format!("{}..{} refused", s, e))
                        }
                    }
                }
            }
        }
        13 => {
            if let Some((r, s, e)) = any(&p.s) {
                match r.nonempty() {
                    Ok(n) => {
                        if s == e {
                            return flag(T, "PSlice::nonempty", format!("{}..{} granted", s, e));
                        }
                        p.put_t(T, "PSlice::nonempty", n, s, e)
                    }
                    Err(_) => {
                        if s != e {
                            flag(T, "PSlice::nonempty", format!("{}..{} refused", s, e))
                        }
                    }
                }
            }
        }
        14 => {
            if let Some((r, s, e)) = p.any_range() {
                let m = s + (e - s) / 2;
                let (a, b) = r.split_in_half();
                p.put_r(T, "PRange::split_in_half.0", a, s, m);
                p.put_r(T, "PRange::split_in_half.1", b, m, e);
                p.put_u(T, "PRange::upper_middle", r.upper_middle(), m)
            }
        }
        15 | 16 => {
            if let Some((r, s, e)) = any(&p.n) {
                let m = s + (e - s) / 2;
                let (a, b) = r.split_in_half();
                p.put_r(T, "PRange::split_in_half.0", a, s, m);
                p.put_n(T, "PRange::split_in_half.1", b, m, e);
                p.put_p(T, "PRange::upper_middle", r.upper_middle(), m)
            }
        }
        17 => {
            if let Some((r, s, e)) = any(&p.s) {
                let m = s + (e - s) / 2;
                let (a, b) = r.split_in_half();
                p.put_s(T, "PSlice::split_in_half.0", a, s, m);
                p.put_s(T, "PSlice::split_in_half.1", b, m, e);
                p.put_u(T, "PSlice::upper_middle", r.upper_middle(), m)
            }
        }
        18 => {
            if let Some((r, s, e)) = any(&p.t) {
                let m = s + (e - s) / 2;
                let (a, b) = r.split_in_half();
                p.put_s(T, "PSlice::split_in_half.0", a, s, m);
                p.put_t(T, "PSlice::split_in_half.1", b, m, e);
                p.put_p(T, "PSlice::upper_middle", r.upper_middle(), m)
            }
        }
        19 => {
            if let Some((r, s, e)) = p.any_range() {
                p.put_u(T, "PRange::first", r.first(), s);
                p.put_u(T, "PRange::past_the_end", r.past_the_end(), e)
            }
        }
        20 | 21 => {
            if let Some((r, s, e)) = any(&p.n) {
                match choose(5) {
                    0 => p.put_p(T, "PRange::first", r.first(), s),
                    1 => p.put_p(T, "PRange::last", r.last(), e - 1),
                    2 => p.put_r(T, "PRange::tail", r.tail(), s + 1, e),
                    3 => p.put_r(T, "PRange::init", r.init(), s, e - 1),
                    _ => p.put_u(T, "PRange::past_the_end", r.past_the_end(), e),
                }
            }
        }
        22 => {
            if !p.n.is_empty() {
                let k = choose(p.n.len());
                let (mut r, s, e) = p.n[k];
                let back = choose(2) == 1;
                let ok = if back { r.advance_back() } else { r.advance() };
                let what = if back { "PRange::advance_back" } else { "PRange::advance" };
                if ok != (e - s > 1) {
                    return flag(T, what, format!("{} of {}..{}: {}", what, s, e, ok));
                }
                let x = if !ok { (s, e) } else if back { (s, e - 1) } else { (s + 1, e) };
                if !p.bad(T, what, r, x) {
                    p.n[k] = (r, x.0, x.1)
                }
            }
        }
        23 => {
            if !p.t.is_empty() {
                let k = choose(p.t.len());
                let (mut r, s, e) = p.t[k];
                let back = choose(2) == 1;
                let ok = if back { r.advance_back() } else { r.advance() };
                let what = if back { "PSlice::advance_back" } else { "PSlice::advance" };
                if ok != (e - s > 1) {
                    return flag(T, what, format!("{} of {}..{}: {}", what, s, e, ok));
                }
                let x = if !ok { (s, e) } else if back { (s, e - 1) } else { (s + 1, e) };
                if !p.bad_slice(T, what, r, x) {
                    p.t[k] = (r, x.0, x.1)
                }
            }
        }
        24 => {
            if let Some((r, s, e)) = any(&p.t) {
                match choose(5) {
                    0 => p.put_p(T, "PSlice::first", r.first(), s),
                    1 => p.put_p(T, "PSlice::last", r.last(), e - 1),
                    2 => p.put_s(T, "PSlice::tail", r.tail(), s + 1, e),
                    3 => p.put_s(T, "PSlice::init", r.init(), s, e - 1),
                    _ => p.put_u(T, "PSlice::past_the_end", r.past_the_end(), e),
                }
            }
        }
        25 => match choose(4) {
            0 => {
                if let Some((r, s, e)) = any(&p.s) {
                    p.put_r(T, "PSlice into PRange", r.into(), s, e)
                }
            }
            1 => {
                if let Some((r, s, e)) = any(&p.t) {
                    p.put_n(T, "PSlice into PRange", r.into(), s, e);
                    p.put_s(T, "PSlice::no_proof", r.no_proof(), s, e)
                }
            }
            2 => {
                if let Some((r, s, e)) = p.any_range() {
                    p.put_s(T, "PRange into PSlice", r.into(), s, e)
                }
            }
            _ => {
                if let Some((r, s, e)) = any(&p.n) {
                    p.put_t(T, "PRange into PSlice", r.into(), s, e);
                    p.put_r(T, "PRange::no_proof", r.no_proof(), s, e)
                }
            }
        },
        26 => {
            // the trait view of ranges and slices
            if let Some((r, s, e)) = any(&p.n) {
                p.put_u(T, "PointerRange::first", PointerRange::first(r), s);
                p.put_u(T, "PointerRange::end", PointerRange::end(r), e);
                if PointerRange::len(r) != e - s {
                    flag(T, "PointerRange::len", format!("{}..{}: {}", s, e, PointerRange::len(r)))
                }
            }
            if let Some((r, s, e)) = any(&p.s) {
                p.put_u(T, "PointerRange::first", PointerRange::first(r), s);
                p.put_u(T, "PointerRange::end", PointerRange::end(r), e);
                if PointerRange::len(r) != e - s {
                    flag(T, "PointerRange::len", format!("{}..{}: {}", s, e, PointerRange::len(r)))
                }
            }
        }
        27 => {
            if let Some((r, s, e)) = p.any_range() {
                keep(&mut p.it, &mut p.at, (r.into_iter(), s, e))
            }
        }
        _ => {
            // an iterator, from either end
            if !p.it.is_empty() {
                let k = choose(p.it.len());
                for _ in 0..1 + choose(3) {
                    let (mut it, s, e) = p.it[k];
                    if it.len() != e - s || it.size_hint() != (e - s, Some(e - s)) {
                        return flag(T, "pointer iterator length", format!("{}..{}: {}", s, e, it.len()));
                    }
                    let (mut a, mut b) = (s, e);
                    let base = p.base;
                    super::algebra::iter_use(
                        T,
                        &mut it,
                        &mut a,
                        &mut b,
                        |q| (q.ptr() as usize).wrapping_sub(base) / std::mem::size_of::<E>(),
                        |what, q, x| p.put_p(T, what, q, x),
                    );
                    if crate::sim::flagged() {
                        return;
                    }
                    let x = (a, b);
                    if p.bad(T, "pointer iterator rest", it.into_range(), x) {
                        return;
                    }
                    p.it[k] = (it, x.0, x.1);
                    if choose(4) == 0 {
                        p.put_r(T, "into_range", it.into_range(), x.0, x.1)
                    }
                }
            }
        }
    }
}

fn look<'id, E, A>(c: &Container<'id, A>, m: &[u32], p: &Pool<'id, E>)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
{
    match choose(6) {
        0 => {
            if let Some((q, v)) = any(&p.p) {
                eq_ids(std::slice::from_ref(&c[q]), &m[v..v + 1], T, "c[p]");
            }
        }
        1 => {
            if let Some((r, s, e)) = any(&p.r) {
                eq_ids(&c[r], &m[s..e], T, "c[prange]");
            }
        }
        2 => {
            if let Some((r, s, e)) = any(&p.n) {
                eq_ids(&c[r], &m[s..e], T, "c[prange]");
            }
        }
        3 => {
            if let Some((q, v)) = p.edge() {
                eq_ids(&c[q..], &m[v..], T, "c[p..]");
                eq_ids(&c[..q], &m[..v], T, "c[..p]");
            }
        }
        4 => {
            if let Some((q, v)) = any(&p.p) {
                eq_ids(&c[q..], &m[v..], T, "c[p..]");
                eq_ids(&c[..q], &m[..v], T, "c[..p]");
            }
        }
        _ => {
            // the equivalent index operation
            if let Some((r, s, e)) = p.any_range() {
                if let Ok(i) = c.vet_range(s..e) {
                    let (a, b) = (&c[r], &c[i]);
                    if a.as_ptr() != b.as_ptr() || a.len() != b.len() {
                        flag(T, "pointer and index disagree", format!("{}..{}", s, e));
                    }
                }
            }
        }
    }
    eq_ids(&c[..], m, T, "c[..]");
}

fn change<'id, E, A, K>(c: &mut Container<'id, A>, m: &mut [u32], p: &Pool<'id, E>, crashes: bool)
where
    E: Elem,
    A: Contiguous<Item = E>,
    K: Kind<E, A>,
{
    let what;
    match choose(7) {
        0 => {
            what = "swap_ptr";
            if let (Some((a, v)), Some((b, w))) = (any(&p.p), any(&p.p)) {
                ev!("swap_ptr({}, {})", v, w);
                K::swap(c, a, b);
                m.swap(v, w);
            }
        }
        1 | 2 => {
            what = "rotate1_prange";
            if let Some((r, s, e)) = any(&p.n) {
                ev!("rotate1_prange({}..{})", s, e);
                K::rot(c, r);
                m[s..e].rotate_right(1);
            }
        }
        3 => {
            what = "c[prange] mut";
            if let Some((r, s, e)) = p.any_range() {
                let g = match if choose(2) == 0 { r.nonempty().ok() } else { None } {
                    Some(n) => K::rng(c, n),
                    None => K::rng(c, r),
                };
                eq_ids(g, &m[s..e], T, what);
                check_stop();
                scribble(g, &mut m[s..e], crashes);
            }
        }
        4 => {
            what = "c[p..] mut";
            let (g, v) = if choose(2) == 0 {
                let Some((q, v)) = p.edge() else { return };
                (K::from(c, q), v)
            } else {
                let Some((q, v)) = any(&p.p) else { return };
                (K::from(c, q), v)
            };
            eq_ids(g, &m[v..], T, what);
            check_stop();
            scribble(g, &mut m[v..], crashes);
        }
        5 => {
            what = "c[..p] mut";
            let (g, v) = if choose(2) == 0 {
                let Some((q, v)) = p.edge() else { return };
                (K::to(c, q), v)
            } else {
                let Some((q, v)) = any(&p.p) else { return };
                (K::to(c, q), v)
            };
            eq_ids(g, &m[..v], T, what);
            check_stop();
            scribble(g, &mut m[..v], crashes);
        }
        _ => {
            // a client that uses indices
            what = "swap";
            if !m.is_empty() {
                let (v, w) = (choose(m.len()), choose(m.len()));
                ev!("swap({}, {})", v, w);
                K::iswap(c, v, w);
                m.swap(v, w);
            }
        }
    }
    eq_ids(&c[..], m, T, what);
}

fn scan<'id, E, A>(c: &Container<'id, A>, m: &[u32], pools: &mut [Pool<'id, E>], me: usize, depth: usize, crashes: bool)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
{
    let len = m.len();
    let kind = choose(4);
    let edge = pools[me].edge();
    let p = any(&pools[me].p);
    let range = pools[me].any_range();
    let (what, order): (&str, Vec<usize>) = match kind {
        0 => {
            let Some((_, v)) = edge else { return };
            ("scan_tail_ (edge)", (0..v).rev().collect())
        }
        1 => {
            let Some((_, v)) = p else { return };
            ("scan_tail_", (0..v).rev().collect())
        }
        2 => {
            let Some((_, s, e)) = range else { return };
            ("scan_pointer_range", (s..e).collect())
        }
        _ => {
            let Some((_, s, e)) = range else { return };
            ("scan_pointer_range_rev", (s..e).rev().collect())
        }
    };
    let bias = 1 + choose(4);
    let (mut k, mut stopped, mut inside) = (0usize, false, false);
    ev!("{} begins, up to {}", what, order.len());
    let mut pred = |e: &E| -> bool {
        inside = true;
        if stopped || k >= order.len() {
            flag(TS, what, format!("{} goes on after it should have stopped", what));
            check_stop();
        }
        if e.id() != m[order[k]] {
            flag(TS, what, format!("{} shows {} as element {}", what, e.id() as i32, k));
            check_stop();
        }
        k += 1;
        if crashes && chance(1, 24) {
            crash("callback_panic");
        }
        if depth < 2 && chance(1, 5) {
            probe("nested operation in a callback");
            let other = choose(pools.len());
            match choose(3) {
                0 => scan(c, m, pools, other, depth + 1, crashes),
                1 => look(c, m, &pools[other]),
                _ => derive(c, &mut pools[other]),
            }
            check_stop();
        }
        let go = !chance(1, 1 + bias);
        stopped = !go;
        inside = false;
        go
    };
    enum Out<'id, E> {
        N(PRange<'id, E, NonEmpty>),
        R(PRange<'id, E>),
        Two(PRange<'id, E>, PRange<'id, E>),
    }
    let out = match kind {
        0 => Out::R(pplain(TS, what, c.scan_tail_(edge.unwrap().0, &mut pred))),
        1 => Out::N(c.scan_tail_(p.unwrap().0, &mut pred)),
        _ => {
            let r = range.unwrap().0;
            // (the bounds of every result are checked below, its promises here)
            macro_rules! two {
                ($x:expr) => {{
                    let (a, b) = $x;
                    (pplain(TS, what, a), pplain(TS, what, b))
                }};
            }
            let (a, b) = match (kind, if choose(2) == 0 { r.nonempty().ok() } else { None }) {
                (2, Some(n)) => two!(c.scan_pointer_range(n, &mut pred)),
                (2, None) => two!(c.scan_pointer_range(r, &mut pred)),
                (_, Some(n)) => two!(c.scan_pointer_range_rev(n, &mut pred)),
                (_, None) => two!(c.scan_pointer_range_rev(r, &mut pred)),
            };
            Out::Two(a, b)
        }
    };
    if inside {
        flag(TS, what, format!("{} returned although its predicate panicked", what));
        check_stop();
    }
    if !stopped && k != order.len() {
        flag(TS, what, format!("{} stopped after {} of {} elements without a refusal", what, k, order.len()));
    }
    let acc = if stopped { k - 1 } else { k };
    let pool = &mut pools[me];
    match out {
        Out::R(r) => {
            let v = edge.unwrap().1;
            pool.put_r(TS, what, r, v - acc, (v + 1).min(len))
        }
        Out::N(r) => {
            let v = p.unwrap().1;
            pool.put_n(TS, what, r, v - acc, v + 1)
        }
        Out::Two(a, b) => {
            let (_, s, e) = range.unwrap();
            let mid = if kind == 2 { s + acc } else { e - acc };
            pool.put_r(TS, what, a, s, mid);
            pool.put_r(TS, what, b, mid, e)
        }
    }
    eq_ids(&c[..], m, TS, what);
}

/// One step of one client.
fn step<'id, E, A, K>(c: &mut Container<'id, A>, m: &mut [u32], pools: &mut [Pool<'id, E>], who: usize, mix: &Mix, crashes: bool, depth: usize)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
    K: Kind<E, A>,
{
    if pools[who].count() == 0 {
        let r = c.pointer_range();
        let len = m.len();
        pools[who].put_r(T, "pointer_range", r, 0, len);
        if let Ok(n) = r.nonempty() {
            pools[who].put_n(T, "PRange::nonempty", n, 0, len);
            pools[who].put_p(T, "PRange::first", n.first(), 0);
            pools[who].put_p(T, "PRange::upper_middle", n.upper_middle(), len / 2);
        } else if len > 0 {
            flag(T, "PRange::nonempty", format!("refused for {} elements", len));
        }
        let s = c.pointer_slice();
        pools[who].put_s(T, "pointer_slice", s, 0, len);
        pools[who].put_u(T, "past_the_end", r.past_the_end(), len);
        check_stop();
    }
    let w = [
        mix.algebra,
        mix.read,
        if K::MUT { mix.write } else { 0 },
        mix.scan,
        if K::MUT && depth < 3 { mix.split } else { 0 },
        mix.clients,
    ];
    match weighted(&w) {
        0 => derive(c, &mut pools[who]),
        1 => look(c, m, &pools[who]),
        2 => change::<E, A, K>(c, m, &pools[who], crashes),
        3 => scan(c, m, pools, who, 0, crashes),
        4 => {
            let proven = choose(2) == 0;
            let (v, q, u) = if proven {
                let Some((q, v)) = any(&pools[who].p) else { return };
                (v, Some(q), None)
            } else {
                let Some((u, v)) = pools[who].edge() else { return };
                (v, None, Some(u))
            };
            ev!("split_container_at_pointer({})", v);
            probe("container split");
            let n = 2 + choose(8);
            if proven {
                K::split_n(c, q.unwrap(), |a, ra, b, rb| {
                    let (x, y) = m.split_at_mut(v);
                    both(a, ra, x, b, rb.no_proof(), Some(rb), y, n, mix, crashes, depth + 1)
                })
            } else {
                K::split(c, u.unwrap(), |a, ra, b, rb| {
                    let (x, y) = m.split_at_mut(v);
                    both(a, ra, x, b, rb, None, y, n, mix, crashes, depth + 1)
                })
            }
            eq_ids(&c[..], m, T, "split_container_at_pointer");
        }
        _ => match choose(3) {
            0 => {
                ev!("client {} restarts", who);
                fault("client_restart");
                let w = extent(&c[..]);
                pools[who] = Pool::new(w);
            }
            _ => {
                let to = choose(pools.len());
                let from = pools[who].clone();
                ev!("client {} sends to {}", who, to);
                let p = &mut pools[to];
                if let Some(x) = any(&from.p) {
                    keep(&mut p.p, &mut p.at, x)
                }
                if let Some(x) = any(&from.n) {
                    keep(&mut p.n, &mut p.at, x)
                }
                if let Some(x) = any(&from.t) {
                    keep(&mut p.t, &mut p.at, x)
                }
            }
        },
    }
}

/// The two halves of a split container, in any interleaving.
fn both<'x, 'y, E: Elem>(
    mut a: Container<'x, &mut [E]>,
    ra: PRange<'x, E>,
    ma: &mut [u32],
    mut b: Container<'y, &mut [E]>,
    rb: PRange<'y, E>,
    rn: Option<PRange<'y, E, NonEmpty>>,
    mb: &mut [u32],
    steps: usize,
    mix: &Mix,
    crashes: bool,
    depth: usize,
) {
    const W: &str = "split_container_at_pointer";
    eq_ids(&a[..], ma, T, W);
    eq_ids(&b[..], mb, T, W);
    check_stop();
    let mut pa = [Pool::new(extent(&a[..]))];
    let mut pb = [Pool::new(extent(&b[..]))];
    pa[0].put_r(T, W, ra, 0, ma.len());
    pb[0].put_r(T, W, rb, 0, mb.len());
    if let Some(n) = rn {
        pb[0].put_n(T, W, n, 0, mb.len());
    }
    check_stop();
    eq_ids(&a[ra], ma, T, W);
    eq_ids(&b[rb], mb, T, W);
    for _ in 0..steps {
        if choose(2) == 0 {
            ev!("left");
            step::<E, &mut [E], Rw>(&mut a, ma, &mut pa, 0, mix, crashes, depth);
        } else {
            ev!("right");
            step::<E, &mut [E], Rw>(&mut b, mb, &mut pb, 0, mix, crashes, depth);
        }
        check_stop();
        eq_ids(&a[..], ma, T, W);
        eq_ids(&b[..], mb, T, W);
        check_stop();
    }
}

fn session<'id, E, A, K>(c: &mut Container<'id, A>, m: &mut [u32], mix: &Mix, steps: usize, crashes: bool, kind: u64)
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
    K: Kind<E, A>,
{
    eq_ids(&c[..], m, T, "scope entry");
    check_stop();
    let whole = extent(&c[..]);
    let n = 1 + choose(3);
    let mut pools: Vec<Pool<'id, E>> = (0..n).map(|_| Pool::new(whole)).collect();
    let mut clones: Vec<Container<'id, A>> = Vec::new();
    let mut last = 0;
    for _ in 0..steps {
        mark();
        let who = choose(n);
        if who != last {
            nontrivial();
            last = who;
        }
        ev!("client {}", who);
        if !clones.is_empty() && choose(6) == 0 {
            let k = choose(clones.len());
            look(&clones[k], m, &pools[who]);
            check_stop();
        } else if clones.len() < 2 && choose(12) == 1 {
            if let Some(k) = K::clone(c) {
                clones.push(k);
            }
        }
        match attempt(|| step::<E, A, K>(c, m, &mut pools, who, mix, crashes, 0)) {
            Ok(()) => {}
            Err(k) => {
                ev!("client {} crashed: {}", who, k);
                pools[who] = Pool::new(whole);
                eq_ids(&c[..], m, TS, "client crash");
            }
        }
        for p in &pools {
            p.audit();
        }
        check_stop();
        let p = &pools[who];
        state(&[
            kind,
            m.len() as u64,
            p.p.iter().map(|x| x.1 as u64 + 1).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
            p.n.iter().map(|x| (x.1 * 64 + x.2) as u64).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
            p.t.iter().map(|x| (x.1 * 64 + x.2) as u64).fold(0, |a, b| a.wrapping_mul(31).wrapping_add(b)),
        ]);
    }
}

fn arena<E: Elem>(mix: &Mix, steps: usize, crashes: bool) {
    let mut a: Arena<E> = Arena::new(&keys(length(true)));
    let mut m = a.ids();
    for _ in 0..1 + choose(2) {
        match choose(5) {
            0 | 1 => {
                ev!("scope over &mut [T], {} elements", m.len());
                scope(a.slice_mut(), |mut c| session::<E, _, Rw>(&mut c, &mut m, mix, steps, crashes, 1));
            }
            2 => {
                ev!("scope over &[T], {} elements", m.len());
                scope(a.slice(), |mut c| session::<E, _, Ro>(&mut c, &mut m, mix, steps, crashes, 2));
            }
            3 => {
                ev!("scope over &mut storage, {} elements", m.len());
                scope(&mut a, |mut c| session::<E, _, Rw>(&mut c, &mut m, mix, steps, crashes, 3));
            }
            _ => {
                ev!("scope over &storage, {} elements", m.len());
                scope(&a, |mut c| session::<E, _, Ro>(&mut c, &mut m, mix, steps, crashes, 4));
            }
        }
        check_stop();
        a.check_guards("pointers");
        eq_ids(a.slice(), &m, T, "after the scope");
        check_stop();
    }
}

#[cfg(feature = "std_lib")]
fn vec(mix: &Mix, steps: usize, crashes: bool) {
    let ks = keys(length(true));
    let mut v: Vec<Tok> = Vec::with_capacity(ks.len() + super::history::spare());
    v.extend(ks.iter().map(|k| Tok::new(*k)));
    let mut m = ids(&v);
    if choose(2) == 0 {
        ev!("scope over &mut Vec, {} elements", m.len());
        scope(&mut v, |mut c| session::<Tok, _, Rw>(&mut c, &mut m, mix, steps, crashes, 5));
    } else {
        ev!("scope over Vec, {} elements", m.len());
        let v = std::mem::take(&mut v);
        scope(v, |mut c| session::<Tok, _, Rw>(&mut c, &mut m, mix, steps, crashes, 6));
    }
    check_stop();
}

/// Zero-sized elements: slices with a length are exact; ranges between two pointers cannot be
/// (a known finding), but must not be anything worse than refused, empty or panicking.
pub fn zst(steps: usize) {
    nontrivial();
    probe("zero-sized elements");
    const W: &str = "PSlice of zero-sized elements";
    let max = isize::MAX as usize;
    let len = pick(&[0usize, 1, 2, 5, max, max - 1, 1 << 40]);
    ev!("scope over {} zero-sized elements", len);
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(len) };
    scope(&mut v[..], |mut c| {
        let mut s: Vec<(PSlice<()>, usize)> = vec![(c.pointer_slice(), len)];
        let mut t: Vec<(PSlice<(), NonEmpty>, usize)> = vec![];
        for _ in 0..steps {
            mark();
            match choose(7) {
                0 => {
                    let (x, n) = any(&s).unwrap();
                    if x.nonempty().is_ok() != (n > 0) {
                        flag(T, W, format!("nonempty of {}", n));
                    }
                    if let Ok(x) = x.nonempty() {
                        t.push((x, n))
                    }
                }
                1 => {
                    let (x, n) = any(&s).unwrap();
                    let (a, b) = x.split_in_half();
                    s.push((a, n / 2));
                    s.push((b, n - n / 2));
                }
                2 | 3 => {
                    if let Some((x, n)) = any(&t) {
                        let (a, b) = x.split_in_half();
                        s.push((a, n / 2));
                        t.push((b, n - n / 2));
                        s.push((Provable::no_proof(x.tail()), n - 1));
                        s.push((Provable::no_proof(x.init()), n - 1));
                        s.push((x.no_proof(), n));
                    }
                }
                4 | 5 => {
                    if !t.is_empty() {
                        let k = choose(t.len());
                        let (mut x, n) = t[k];
                        let ok = if choose(2) == 0 { x.advance() } else { x.advance_back() };
                        if ok != (n > 1) {
                            flag(T, W, format!("advance of {}: {}", n, ok));
                        }
                        t[k] = (x, if ok { n - 1 } else { n });
                    }
                }
                _ => {
                    // ranges between two pointers
                    let k = choose(7);
                    let mut seen = 0;
                    let ok = attempt_any(|| {
                        let r = c.pointer_range();
                        match k {
                            0 => {
                                seen = r.len();
                                seen == len
                            }
                            1 => r.is_empty() == (len == 0),
                            2 => r.nonempty().is_ok() == (len > 0),
                            3 => {
                                seen = r.into_iter().take(4).count();
                                seen == len.min(4)
                            }
                            4 => {
                                seen = c[r].len();
                                seen == len
                            }
                            6 => match c.pointer_slice().nonempty() {
                                Ok(s) => c[s.first()] == (),
                                Err(_) => len == 0,
                            },
                            _ => {
                                seen = c[r.first()..].len();
                                seen == len
                            }
                        }
                    });
                    let ids = [
                        "zst-prange-len",
                        "zst-prange-is-empty",
                        "zst-prange-nonempty",
                        "zst-prange-iteration",
                        "zst-prange-slice",
                        "zst-pindex-slice",
                        "zst-pindex-read",
                    ];
                    match &ok {
                        Ok(true) => {}
                        // such a range can be refused, or say that it is shorter than it is
                        Ok(false) if len > 0 && seen < len && k != 6 => {
                            flag_known(T, ids[k], format!("over {} zero-sized elements: {}", len, seen))
                        }
                        Err(m) => flag_known(T, ids[k], format!("over {} zero-sized elements: {}", len, m)),
                        x => flag(T, "PRange of zero-sized elements", format!("{}: {:?}", ids[k], x)),
                    }
                }
            }
            for (x, n) in &s {
                if x.len() != *n || x.is_empty() != (*n == 0) {
                    flag(T, W, format!("length {} should be {}", x.len(), n));
                }
            }
            for (x, n) in &t {
                if x.len() != *n || x.is_empty() {
                    flag(T, W, format!("length {} should be {}", x.len(), n));
                }
            }
            s.truncate(12);
            t.truncate(12);
            check_stop();
        }
        let _ = &mut c;
    });
}

pub fn run(mut mix: Mix, zsts: u32) {
    if chance(1, 4) {
        mix.scan = mix.scan / 4;
    }
    if chance(1, 4) {
        mix.algebra = mix.algebra / 3 + 1;
    }
    let crashes = chance(1, 2);
    let steps = [6, 15, 30, 60][weighted(&[2, 3, 3, 2])];
    match weighted(&[8, 4, zsts]) {
        0 => match choose(5) {
            3 => arena::<Word>(&mix, steps, crashes),
            4 => arena::<Pair>(&mix, steps, crashes),
            0 => arena::<Tok>(&mix, steps, crashes),
            1 => arena::<Small>(&mix, steps, crashes),
            _ => arena::<Big>(&mix, steps, crashes),
        },
        1 => {
            #[cfg(feature = "std_lib")]
            vec(&mix, steps, crashes);
            #[cfg(not(feature = "std_lib"))]
            arena::<Tok>(&mix, steps, crashes);
        }
        _ => zst(steps),
    }
}

pub fn c13() {
    run(Mix { algebra: 12, read: 3, write: 5, scan: 3, clients: 2, split: 1, index: 1 }, 1)
}

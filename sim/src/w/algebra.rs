//! Index and range operations against integers. Used by every engine that holds particles.

use crate::{either, ev};
use crate::sim::{choose, flag, probe, small, weighted, word};
use indexing::container_traits::Trustworthy;
use indexing::proof::Provable;
use indexing::{Container, Index, NonEmpty, Range, Unknown};

pub type Tags = &'static [&'static str];
pub const VET: Tags = &["C03", "C11"];
pub const DIV: Tags = &["C04", "C11"];
pub const STEP: Tags = &["C03", "C04", "C11"];

const CAP: usize = 8;

/// The particles one client holds, each with the position(s) it must designate.
#[derive(Clone)]
pub struct Pool<'id> {
    pub i: Vec<(Index<'id>, usize)>,
    pub e: Vec<(Index<'id, Unknown>, usize)>,
    pub r: Vec<(Range<'id>, usize, usize)>,
    pub n: Vec<(Range<'id, NonEmpty>, usize, usize)>,
    at: usize,
}

fn store<T>(v: &mut Vec<T>, at: &mut usize, x: T) {
    if v.len() < CAP {
        v.push(x);
    } else {
        *at += 1;
        let k = *at % CAP;
        v[k] = x;
    }
}

/// What a particle's type promises. The harness takes particles of either kind wherever the
/// library may hand one out, so that a promise that is not kept is seen as a violation.
pub trait Proof {
    const NE: bool;
}
impl Proof for Unknown {
    const NE: bool = false;
}
impl Proof for NonEmpty {
    const NE: bool = true;
}

/// A range as one without a promise, after checking whatever it does promise.
pub fn plain<'id, P: Proof>(tags: Tags, what: &str, r: Range<'id, P>) -> Range<'id> {
    if P::NE && r.start() >= r.end() {
        oob(tags, what, format!("{} gave the empty range {}..{} as non-empty", what, r.start(), r.end()));
        crate::sim::check_stop();
    }
    unk(Range::no_proof(&r))
}

/// A range without a promise, whatever it was.
pub fn unk<'id, P>(r: Range<'id, P>) -> Range<'id> {
    indexing::proof::Provable::no_proof(r)
}

fn oob(tags: Tags, what: &str, msg: String) {
    flag(&["C01", "C11"], &format!("{}: out of bounds", what), msg.clone());
    flag(tags, &format!("{}: out of bounds", what), msg);
}

impl<'id> Pool<'id> {
    pub fn new() -> Self {
        Pool { i: vec![], e: vec![], r: vec![], n: vec![], at: 0 }
    }
    pub fn count(&self) -> usize {
        self.i.len() + self.e.len() + self.r.len() + self.n.len()
    }
    /// A dereferenceable index was handed out.
    pub fn put_i(&mut self, len: usize, tags: Tags, what: &str, got: Index<'id>, exp: Option<usize>) {
        let v = got.integer();
        ev!("{} -> i{}", what, v);
        if v >= len {
            return oob(tags, what, format!("{} gave index {} of a container of {} elements", what, v, len));
        }
        if exp.is_some_and(|e| e != v) {
            flag(tags, what, format!("{} gave index {}, should be {}", what, v, exp.unwrap()));
        }
        store(&mut self.i, &mut self.at, (got, v));
    }
    pub fn put_e<P: Proof>(&mut self, len: usize, tags: Tags, what: &str, got: Index<'id, P>, exp: Option<usize>) {
        let v = got.integer();
        ev!("{} -> e{}", what, v);
        if P::NE && v >= len {
            return oob(tags, what, format!("{} gave index {} of a container of {} elements as dereferenceable", what, v, len));
        }
        if v > len {
            return oob(tags, what, format!("{} gave edge index {} of a container of {} elements", what, v, len));
        }
        if exp.is_some_and(|e| e != v) {
            flag(tags, what, format!("{} gave edge index {}, should be {}", what, v, exp.unwrap()));
        }
        store(&mut self.e, &mut self.at, (got.no_proof(), v));
    }
    pub fn put_r<P: Proof>(&mut self, len: usize, tags: Tags, what: &str, got: Range<'id, P>, exp: Option<(usize, usize)>) {
        let (s, e) = (got.start(), got.end());
        ev!("{} -> r{}..{}", what, s, e);
        if P::NE && s >= e {
            return oob(tags, what, format!("{} gave the empty range {}..{} as non-empty", what, s, e));
        }
        if s > e || e > len {
            return oob(tags, what, format!("{} gave range {}..{} of a container of {} elements", what, s, e, len));
        }
        range_facts(tags, what, &got, s, e);
        if exp.is_some_and(|x| x != (s, e)) {
            flag(tags, what, format!("{} gave range {}..{}, should be {:?}", what, s, e, exp.unwrap()));
        }
        store(&mut self.r, &mut self.at, (unk(got), s, e));
    }
    pub fn put_n(&mut self, len: usize, tags: Tags, what: &str, got: Range<'id, NonEmpty>, exp: Option<(usize, usize)>) {
        let (s, e) = (got.start(), got.end());
        ev!("{} -> n{}..{}", what, s, e);
        if s >= e || e > len {
            return oob(
                tags,
                what,
                format!("{} gave non-empty range {}..{} of a container of {} elements", what, s, e, len),
            );
        }
        range_facts(tags, what, &got, s, e);
        if exp.is_some_and(|x| x != (s, e)) {
            flag(tags, what, format!("{} gave range {}..{}, should be {:?}", what, s, e, exp.unwrap()));
        }
        store(&mut self.n, &mut self.at, (got, s, e));
    }
    pub fn pick_i(&self) -> Option<(Index<'id>, usize)> {
        if self.i.is_empty() { None } else { Some(self.i[choose(self.i.len())]) }
    }
    pub fn pick_e(&self) -> Option<(Index<'id, Unknown>, usize)> {
        if self.e.is_empty() { None } else { Some(self.e[choose(self.e.len())]) }
    }
    pub fn pick_r(&self) -> Option<(Range<'id>, usize, usize)> {
        if self.r.is_empty() { None } else { Some(self.r[choose(self.r.len())]) }
    }
    pub fn pick_n(&self) -> Option<(Range<'id, NonEmpty>, usize, usize)> {
        if self.n.is_empty() { None } else { Some(self.n[choose(self.n.len())]) }
    }
    /// An edge index, possibly made from a dereferenceable one.
    pub fn pick_edge(&self) -> Option<(Index<'id, Unknown>, usize)> {
        if self.e.is_empty() || (choose(2) == 1 && !self.i.is_empty()) {
            self.pick_i().map(|(i, v)| (i.no_proof(), v))
        } else {
            self.pick_e()
        }
    }
    /// A range, possibly with its proof dropped.
    pub fn pick_any_range(&self) -> Option<(Range<'id>, usize, usize)> {
        if self.r.is_empty() || (choose(2) == 1 && !self.n.is_empty()) {
            self.pick_n().map(|(r, s, e)| (unk(r), s, e))
        } else {
            self.pick_r()
        }
    }
    /// Positions this client knows about (for generating raw positions near them).
    pub fn near(&self, len: usize) -> Vec<usize> {
        let mut v = vec![len, 0];
        v.extend(self.i.iter().map(|x| x.1));
        v.extend(self.e.iter().map(|x| x.1));
        v.extend(self.r.iter().map(|x| x.2));
        v.extend(self.n.iter().flat_map(|x| [x.1, x.2]));
        v
    }
    /// Another client sends one of its particles.
    pub fn receive(&mut self, from: &Pool<'id>) {
        match choose(4) {
            0 => {
                if let Some(x) = from.pick_i() {
                    store(&mut self.i, &mut self.at, x)
                }
            }
            1 => {
                if let Some(x) = from.pick_e() {
                    store(&mut self.e, &mut self.at, x)
                }
            }
            2 => {
                if let Some(x) = from.pick_r() {
                    store(&mut self.r, &mut self.at, x)
                }
            }
            _ => {
                if let Some(x) = from.pick_n() {
                    store(&mut self.n, &mut self.at, x)
                }
            }
        }
    }
    /// Particles never change by themselves and stay within the container.
    pub fn audit(&self, len: usize) {
        for (i, v) in &self.i {
            if i.integer() != *v || *v >= len {
                flag(&["C01"], "held index went bad", format!("{} -> {} of {}", v, i.integer(), len));
            }
        }
        for (i, v) in &self.e {
            if i.integer() != *v || *v > len {
                flag(&["C01"], "held edge index went bad", format!("{} -> {} of {}", v, i.integer(), len));
            }
        }
        for (r, s, e) in &self.r {
            if (r.start(), r.end()) != (*s, *e) || *e > len {
                flag(&["C01"], "held range went bad", format!("{}..{} -> {:?} of {}", s, e, r, len));
            }
        }
        for (r, s, e) in &self.n {
            if (r.start(), r.end()) != (*s, *e) || *e > len {
                flag(&["C01"], "held range went bad", format!("{}..{} -> {:?} of {}", s, e, r, len));
            }
        }
    }
}

/// What a range says about itself.
fn range_facts<'id, P>(tags: Tags, what: &str, r: &Range<'id, P>, s: usize, e: usize) {
    if r.len() != e - s || r.is_empty() != (s == e) || r.as_range() != (s..e) {
        flag(
            tags,
            "range misdescribes itself",
            format!("{}: {:?} says len {} empty {} as_range {:?}", what, r, r.len(), r.is_empty(), r.as_range()),
        );
    }
}

fn verdict(tags: Tags, what: &str, got: bool, exp: bool, msg: impl FnOnce() -> String) {
    if got != exp {
        flag(tags, what, format!("{}: {}, should be {} ({})", what, got, exp, msg()));
    }
}

pub const VET_OPS: &[usize] = &[0, 1, 2, 3];
pub const CURSOR_OPS: &[usize] = &[4, 5, 6, 7, 8, 9, 10];
pub const DIV_OPS: &[usize] = &[11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];

/// One random operation of one client through a shared reference. `len` is the model's length.
pub fn step<'id, A, M>(c: &Container<'id, A, M>, p: &mut Pool<'id>, len: usize)
where
    A: Trustworthy,
{
    let op = match choose(4) {
        0 => VET_OPS[choose(VET_OPS.len())],
        1 => CURSOR_OPS[choose(CURSOR_OPS.len())],
        _ => DIV_OPS[choose(DIV_OPS.len())],
    };
    step_op(c, p, len, op)
}

pub fn step_op<'id, A, M>(c: &Container<'id, A, M>, p: &mut Pool<'id>, len: usize, op: usize)
where
    A: Trustworthy,
{
    match op {
        0 => {
            let x = word(&p.near(len));
            let r = c.vet(x);
            ev!("vet({})", x);
            verdict(VET, "vet", r.is_ok(), x < len, || format!("position {} of {}", x, len));
            if let Ok(i) = r {
                p.put_i(len, VET, "vet", i, Some(x));
            }
        }
        1 => {
            let near = p.near(len);
            let a = word(&near);
            let b = word(&near);
            let r = c.vet_range(a..b);
            ev!("vet_range({}..{})", a, b);
            verdict(VET, "vet_range", r.is_ok(), a <= b && b <= len, || format!("{}..{} of {}", a, b, len));
            if let Ok(r) = r {
                p.put_r(len, VET, "vet_range", r, Some((a, b)));
            }
        }
        2 => {
            if let Some((r, s, e)) = p.pick_any_range() {
                let mut near = vec![s, e, len];
                near.push(s + (e - s) / 2);
                let x = word(&near);
                let g = either!(r, r.contains(x));
                ev!("{}..{}.contains({})", s, e, x);
                verdict(VET, "contains", g.is_some(), s <= x && x < e, || format!("{} in {}..{}", x, s, e));
                if let Some(i) = g {
                    p.put_i(len, VET, "contains", i, Some(x));
                }
            } else {
                p.put_r(len, STEP, "range", c.range(), Some((0, len)));
            }
        }
        3 => {
            if c.len() != len {
                flag(&["C02", "C03", "C05"], "len", format!("len {} should be {}", c.len(), len));
            }
            if choose(2) == 0 {
                p.put_r(len, STEP, "range", c.range(), Some((0, len)));
            } else {
                p.put_r(len, STEP, "empty_range", c.empty_range(), Some((0, 0)));
            }
        }
        4 | 5 => {
            // cursor moves of an index, whole container
            if let Some((i, v)) = p.pick_i() {
                let mut j = i;
                match choose(3) {
                    0 => {
                        let ok = c.forward(&mut j);
                        moved(p, len, "forward", v, j, ok, Some(v + 1).filter(|x| *x < len));
                    }
                    1 => {
                        let ok = c.backward(&mut j);
                        moved(p, len, "backward", v, j, ok, v.checked_sub(1));
                    }
                    _ => {
                        let off = offset(v, len);
                        ev!("forward_by({}) from {}", off, v);
                        let ok = c.forward_by(&mut j, off);
                        let dest = v.checked_add(off).filter(|d| *d < len);
                        if off > len {
                            probe("huge_offset");
                        }
                        moved(p, len, "forward_by", v, j, ok, dest);
                    }
                }
            }
        }
        6 => {
            if let (Some((i, v)), Some((r, s, e))) = (p.pick_i(), p.pick_any_range()) {
                let mut j = i;
                let off = offset(v, e);
                ev!("{}..{}.forward_by({}) from {}", s, e, off, v);
                let ok = either!(r, r.forward_by(&mut j, off));
                moved(p, len, "Range::forward_by", v, j, ok, v.checked_add(off).filter(|d| *d < e));
            }
        }
        7 => {
            if let Some((r, s, e)) = p.pick_any_range() {
                let off = offset(s, len);
                ev!("forward_range_by({}..{}, {})", s, e, off);
                let exp = (s.saturating_add(off).min(len), e.saturating_add(off).min(len));
                either!(r, p.put_r(len, VET, "forward_range_by", c.forward_range_by(r, off), Some(exp)));
            }
        }
        8 => {
            if let (Some((r, s, e)), Some((q, a, b))) = (p.pick_any_range(), p.pick_any_range()) {
                let off = offset(a, e);
                ev!("{}..{}.forward_range_by({}..{}, {})", s, e, a, b, off);
                let exp = (a.saturating_add(off).min(e), b.saturating_add(off).min(e));
                either!(r, either!(q, p.put_r(len, VET, "Range::forward_range_by", r.forward_range_by(q, off), Some(exp))));
            }
        }
        9 => {
            if let Some((r, s, e)) = p.pick_n() {
                let mut q = r;
                let (what, ok, exp) = match choose(4) {
                    0 => ("advance", q.advance(), Some((s + 1, e))),
                    1 => ("advance_back", q.advance_back(), Some((s, e - 1))),
                    2 => {
                        let off = offset(s, e);
                        ev!("advance_by({})", off);
                        ("advance_by", q.advance_by(off), s.checked_add(off).map(|x| (x, e)))
                    }
                    _ => {
                        let g = r.advance_();
                        if let Ok(x) = g {
                            q = x;
                        }
                        ("advance_", g.is_ok(), Some((s + 1, e)))
                    }
                };
                let exp = exp.filter(|x| x.0 < x.1);
                ev!("{} of {}..{}: {}", what, s, e, ok);
                verdict(STEP, what, ok, exp.is_some(), || format!("from {}..{}", s, e));
                if ok {
                    p.put_n(len, STEP, what, q, exp);
                } else if (q.start(), q.end()) != (s, e) {
                    flag(STEP, what, format!("{} refused but changed {}..{} to {:?}", what, s, e, q));
                }
            }
        }
        10 => {
            if let Some((r, s, e)) = p.pick_any_range() {
                let g = r.nonempty();
                ev!("nonempty({}..{})", s, e);
                verdict(STEP, "nonempty", g.is_ok(), s < e, || format!("{}..{}", s, e));
                if let Ok(n) = g {
                    p.put_n(len, STEP, "nonempty", n, Some((s, e)));
                }
            }
        }
        11 => {
            if choose(2) == 0 {
                if let Some((i, v)) = p.pick_i() {
                    let (a, b) = c.split_at(i);
                    p.put_r(len, DIV, "split_at", a, Some((0, v)));
                    p.put_n(len, DIV, "split_at", b, Some((v, len)));
                }
            } else if let Some((i, v)) = p.pick_e() {
                let (a, b) = c.split_at(i);
                p.put_r(len, DIV, "split_at", a, Some((0, v)));
                p.put_r(len, DIV, "split_at", b, Some((v, len)));
            }
        }
        12 => {
            if let Some((i, v)) = p.pick_i() {
                let (a, b) = c.split_after(i);
                p.put_n(len, DIV, "split_after", a, Some((0, v + 1)));
                p.put_r(len, DIV, "split_after", b, Some((v + 1, len)));
            }
        }
        13 => {
            if choose(2) == 0 {
                if let Some((r, s, e)) = p.pick_r() {
                    let (a, b) = c.split_around(r);
                    p.put_r(len, DIV, "split_around", a, Some((0, s)));
                    p.put_r(len, DIV, "split_around", b, Some((e, len)));
                }
            } else if let Some((r, s, e)) = p.pick_n() {
                let (a, b) = c.split_around(r);
                p.put_r(len, DIV, "split_around", a, Some((0, s)));
                p.put_r(len, DIV, "split_around", b, Some((e, len)));
            }
        }
        14 => match choose(6) {
            0 => {
                if let Some((i, v)) = p.pick_edge() {
                    p.put_r(len, DIV, "before", c.before(i), Some((0, v)));
                }
            }
            1 => {
                if let Some((i, v)) = p.pick_i() {
                    p.put_r(len, DIV, "before", c.before(i), Some((0, v)));
                }
            }
            2 => {
                if let Some((i, v)) = p.pick_i() {
                    p.put_r(len, DIV, "after", c.after(i), Some((v + 1, len)));
                }
            }
            3 => {
                if let Some((i, v)) = p.pick_edge() {
                    p.put_r(len, DIV, "range_of(..i)", c.range_of(..i), Some((0, v)));
                }
                if let Some((i, v)) = p.pick_i() {
                    p.put_r(len, DIV, "range_of(..i)", c.range_of(..i), Some((0, v)));
                }
            }
            4 => {
                if let Some((i, v)) = p.pick_edge() {
                    p.put_r(len, DIV, "range_of(i..)", c.range_of(i..), Some((v, len)));
                }
                if let Some((i, v)) = p.pick_i() {
                    p.put_r(len, DIV, "range_of(i..)", c.range_of(i..), Some((v, len)));
                }
            }
            _ => {
                p.put_r(len, DIV, "range_of(..)", c.range_of::<Unknown, _>(..), Some((0, len)));
            }
        },
        15 => {
            if choose(2) == 0 {
                if let Some((r, s, e)) = p.pick_r() {
                    let m = s + (e - s) / 2;
                    let (a, b) = r.split_in_half();
                    p.put_r(len, DIV, "split_in_half", a, Some((s, m)));
                    p.put_r(len, DIV, "split_in_half", b, Some((m, e)));
                }
            } else if let Some((r, s, e)) = p.pick_n() {
                let m = s + (e - s) / 2;
                let (a, b) = r.split_in_half();
                p.put_r(len, DIV, "split_in_half", a, Some((s, m)));
                p.put_n(len, DIV, "split_in_half", b, Some((m, e)));
            }
        }
        16 => {
            if let Some((r, s, e)) = p.pick_any_range() {
                let x = word(&[e - s, 1, (e - s) / 2]);
                ev!("{}..{}.split_at({})", s, e, x);
                let m = if x > e - s { e } else { s + x };
                either!(r, {
                    let (a, b, ok) = r.split_at(x);
                    verdict(DIV, "Range::split_at", ok, x <= e - s, || format!("{} of {}", x, e - s));
                    p.put_r(len, DIV, "Range::split_at", a, Some((s, m)));
                    p.put_r(len, DIV, "Range::split_at", b, Some((m, e)));
                })
            }
        }
        17 => {
            if let Some((r, s, e)) = p.pick_any_range() {
                either!(r, subdivide(p, r, s, e, len));
            }
        }
        18 => {
            let kind = choose(4);
            macro_rules! join {
                ($pa:ident, $pb:ident, $put:ident) => {
                    if let (Some((a, s, e)), Some((b, t, f))) = (p.$pa(), p.$pb()) {
                        match choose(3) {
                            0 => {
                                let g = a.join(b);
                                ev!("join({}..{}, {}..{})", s, e, t, f);
                                verdict(DIV, "join", g.is_ok(), e == t, || format!("{}..{} and {}..{}", s, e, t, f));
                                if let Ok(g) = g {
                                    p.$put(len, DIV, "join", g, Some((s, f)));
                                }
                            }
                            1 => {
                                let g = a.join_cover_both(b);
                                ev!("join_cover_both({}..{}, {}..{})", s, e, t, f);
                                p.$put(len, DIV, "join_cover_both", g, Some((s.min(t), e.max(f))));
                            }
                            _ => {
                                ev!("join_cover({}..{}, {}..{})", s, e, t, f);
                                join!(@cover $pa, a, b, s, e, f);
                            }
                        }
                    }
                };
                (@cover pick_r, $a:ident, $b:ident, $s:ident, $e:ident, $f:ident) => {
                    p.put_r(len, DIV, "join_cover", $a.join_cover($b), Some(($s, $e.max($f))))
                };
                (@cover pick_n, $a:ident, $b:ident, $s:ident, $e:ident, $f:ident) => {
                    p.put_n(len, DIV, "join_cover", $a.join_cover($b), Some(($s, $e.max($f))))
                };
            }
            match kind {
                0 => join!(pick_r, pick_r, put_r),
                1 => join!(pick_r, pick_n, put_n),
                2 => join!(pick_n, pick_r, put_n),
                _ => join!(pick_n, pick_n, put_n),
            }
        }
        19 => {
            // make a touching pair and rejoin it
            if let Some((r, s, e)) = p.pick_any_range() {
                let x = small((e - s).min(64));
                let (a, b, _) = r.split_at(x);
                if (a.start(), a.end(), b.start(), b.end()) == (s, s + x, s + x, e) {
                    let (a, b) = (plain(DIV, "Range::split_at", a), plain(DIV, "Range::split_at", b));
                    match a.join(b) {
                        Ok(g) => p.put_r(len, DIV, "join", g, Some((s, e))),
                        Err(_) => flag(DIV, "join", format!("{}..{} and {}..{} refused", s, s + x, s + x, e)),
                    }
                }
            }
        }
        20 => {
            if let Some((r, s, e)) = p.pick_any_range() {
                match choose(4) {
                    0 => either!(r, {
                        let (a, b) = r.frontiers();
                        p.put_r(len, DIV, "frontiers", a, Some((s, s)));
                        p.put_r(len, DIV, "frontiers", b, Some((e, e)));
                    }),
                    1 => p.put_e(len, DIV, "first", r.first(), Some(s)),
                    2 => p.put_e(len, DIV, "upper_middle", r.upper_middle(), Some(s + (e - s) / 2)),
                    _ => p.put_e(len, DIV, "past_the_end", r.past_the_end(), Some(e)),
                }
            }
        }
        21 => {
            if let Some((r, s, e)) = p.pick_n() {
                match choose(8) {
                    0 => p.put_i(len, DIV, "first", r.first(), Some(s)),
                    1 => p.put_i(len, DIV, "last", r.last(), Some(e - 1)),
                    2 => p.put_i(len, DIV, "upper_middle", r.upper_middle(), Some(s + (e - s) / 2)),
                    3 => p.put_i(len, DIV, "lower_middle", r.lower_middle(), Some(s + (e - s - 1) / 2)),
                    4 => p.put_r(len, DIV, "tail", r.tail(), Some((s + 1, e))),
                    5 => p.put_r(len, DIV, "init", r.init(), Some((s, e - 1))),
                    6 => p.put_e(len, DIV, "past_the_end", r.past_the_end(), Some(e)),
                    _ => p.put_r(len, DIV, "no_proof", Range::no_proof(&r), Some((s, e))),
                }
            }
        }
        22 => {
            if let Some((i, v)) = p.pick_i() {
                if choose(2) == 0 {
                    p.put_e(len, DIV, "Index::after", i.after(), Some(v + 1));
                } else {
                    p.put_e(len, DIV, "Index::no_proof", i.no_proof(), Some(v));
                }
            }
        }
        _ => {
            if let Some((r, s, e)) = p.pick_any_range() {
                either!(r, iterate(p, r, s, e, len));
            }
        }
    }
}

/// Runs the expression with the range as it is or, if it can be, known to be non-empty.
#[macro_export]
macro_rules! either {
    ($r:ident, $b:expr) => {
        match if $crate::sim::choose(2) == 0 { $r.nonempty().ok() } else { None } {
            Some($r) => $b,
            None => $b,
        }
    };
}

fn offset(v: usize, len: usize) -> usize {
    let room = len.saturating_sub(v);
    word(&[room, 1, len, 0usize.wrapping_sub(v)])
}

fn moved<'id>(p: &mut Pool<'id>, len: usize, what: &str, v: usize, j: Index<'id>, ok: bool, dest: Option<usize>) {
    ev!("{} of i{}: {}", what, v, ok);
    verdict(VET, what, ok, dest.is_some(), || format!("from {} of {}", v, len));
    if ok {
        p.put_i(len, VET, what, j, dest);
    } else if j.integer() != v {
        flag(VET, what, format!("{} refused but moved the cursor from {} to {}", what, v, j.integer()));
        if j.integer() >= len {
            oob(VET, what, format!("{} refused and left the cursor at {} of {}", what, j.integer(), len));
        }
    }
}

pub fn subdivide<'id, P: Copy>(p: &mut Pool<'id>, r: Range<'id, P>, s: usize, e: usize, len: usize) {
    let size = e - s;
    let n = match choose(4) {
        0 => 1 + choose(4),
        1 => size.max(1),
        2 => 1 + small(size.min(40)),
        _ => word(&[size, size / 2]).max(1),
    };
    ev!("{}..{}.subdivide({})", s, e, n);
    let mut at = s;
    let mut parts = 0usize;
    let keep = choose(8);
    let mut it = r.subdivide(n);
    loop {
        if parts > 70 && size > 4096 {
            // a huge range: only a prefix of the parts is examined
            return;
        }
        let Some(q) = it.next() else { break };
        let (a, b) = (q.start(), q.end());
        if a >= b || b > len {
            oob(DIV, "subdivide", format!("part {}..{} of {}..{}", a, b, s, e));
            return;
        }
        if a != at || b > e {
            flag(DIV, "subdivide", format!("part {}..{} after {} in {}..{}", a, b, at, s, e));
        }
        if n <= size && !(b - a == size / n || b - a == size / n + usize::from(size % n != 0)) {
            flag(DIV, "subdivide: uneven", format!("part {}..{} of {}..{} in {} parts", a, b, s, e, n));
        }
        if parts == keep {
            p.put_n(len, DIV, "subdivide", q, None);
        }
        at = b;
        parts += 1;
        if parts > size {
            flag(DIV, "subdivide: too many parts", format!("{} parts of {}..{}", parts, s, e));
            return;
        }
    }
    if n <= size && (parts != n || at != e) {
        flag(DIV, "subdivide: parts", format!("{} parts up to {} of {}..{} in {} parts", parts, at, s, e, n));
    }
    if it.next().is_some() || it.next().is_some() {
        flag(DIV, "subdivide: not finished", format!("{}..{} in {} parts goes on after its end", s, e, n));
    }
    // the other ways to use the same division
    if crate::sim::flagged() || parts > 70 || choose(3) != 0 {
        return;
    }
    let span = |q: Range<'id, NonEmpty>| (q.start(), q.end());
    let all: Vec<(usize, usize)> = {
        let (mut it, mut v) = (r.subdivide(n), vec![]);
        while let Some(q) = it.next() {
            v.push(span(q));
        }
        v
    };
    let k = small(parts) + choose(2);
    let mut it = r.subdivide(n);
    let before = small(parts);
    for _ in 0..before {
        it.next();
    }
    let left = &all[before..];
    let (lo, hi) = it.size_hint();
    if lo > left.len() || hi.is_some_and(|h| h < left.len()) {
        flag(DIV, "subdivide: size_hint", format!("{:?} with {} parts left", (lo, hi), left.len()));
    }
    let (what, got): (&str, Vec<(usize, usize)>) = match choose(6) {
        0 => ("count", (0..it.count()).map(|_| (0, 0)).collect()),
        1 => ("last", it.last().map(span).into_iter().collect()),
        2 => ("nth", it.nth(k).map(span).into_iter().chain(it.map(span)).collect()),
        3 => ("fold", it.fold(vec![], |mut v, q| { v.push(span(q)); v })),
        4 => ("step_by", it.step_by(k + 1).map(span).collect()),
        _ => ("skip", it.skip(k).map(span).collect()),
    };
    let exp: Vec<(usize, usize)> = match what {
        "count" => left.iter().map(|_| (0, 0)).collect(),
        "last" => left.last().copied().into_iter().collect(),
        "fold" => left.to_vec(),
        "step_by" => left.iter().copied().step_by(k + 1).collect(),
        _ => left.iter().copied().skip(k).collect(),
    };
    if got != exp {
        flag(DIV, "subdivide: other uses", format!("{} after {} of {}..{} in {} ({}): {:?}", what, before, s, e, n, k, got));
    }
}

/// One use of an iterator over positions, which has exactly `a..b` left. Hands the item that came
/// out, if any, to `put` together with the position it must have.
pub fn iter_use<I>(
    tags: Tags,
    it: &mut I,
    a: &mut usize,
    b: &mut usize,
    pos: impl Fn(&I::Item) -> usize,
    mut put: impl FnMut(&'static str, I::Item, usize),
) where
    I: DoubleEndedIterator + Clone,
{
    let n = *b - *a;
    let what;
    let (got, exp) = match weighted(&[4, 4, 2, 2, 2, 1]) {
        0 => {
            what = "next";
            let x = (n > 0).then_some(*a);
            *a += x.is_some() as usize;
            (it.next(), x)
        }
        1 => {
            what = "next_back";
            let x = (n > 0).then_some(b.wrapping_sub(1));
            *b -= x.is_some() as usize;
            (it.next_back(), x)
        }
        2 => {
            let k = skip(n);
            what = "nth";
            ev!("nth({})", k);
            let x = (k < n).then(|| *a + k);
            *a = x.map_or(*b, |x| x + 1);
            (it.nth(k), x)
        }
        3 => {
            let k = skip(n);
            what = "nth_back";
            ev!("nth_back({})", k);
            let x = (k < n).then(|| *b - 1 - k);
            *b = x.unwrap_or(*a);
            (it.nth_back(k), x)
        }
        4 => {
            let (lo, hi) = it.size_hint();
            if lo > n || hi.is_some_and(|h| h < n) {
                flag(tags, "size_hint", format!("{}..{} left, size_hint {:?}", a, b, (lo, hi)));
            }
            return;
        }
        _ => {
            if n <= 4096 {
                drain(tags, it.clone(), *a, *b, &pos);
            }
            return;
        }
    };
    verdict(tags, what, got.is_some(), exp.is_some(), || format!("{}..{} left afterwards", a, b));
    if let (Some(g), Some(x)) = (got, exp) {
        put(what, g, x);
    }
}

fn skip(n: usize) -> usize {
    if n > 4096 { choose(300) } else { word(&[n, 1, n / 2]) }
}

/// A copy of the iterator used up in one of the ways there are.
fn drain<I: DoubleEndedIterator>(tags: Tags, it: I, a: usize, b: usize, pos: &impl Fn(&I::Item) -> usize) {
    let n = b - a;
    let k = small(n) + choose(2);
    let f = |i: I::Item| pos(&i);
    let (what, got, exp): (&str, Vec<usize>, Vec<usize>) = match choose(14) {
        0 => ("collect", it.map(f).collect(), (a..b).collect()),
        1 => ("rev", it.rev().map(f).collect(), (a..b).rev().collect()),
        2 => ("count", vec![it.count()], vec![n]),
        3 => ("last", it.last().map(f).into_iter().collect(), (a..b).last().into_iter().collect()),
        4 => {
            let mut v = vec![];
            it.for_each(|i| v.push(pos(&i)));
            ("for_each", v, (a..b).collect())
        }
        5 => ("fold", it.fold(vec![], |mut v, i| { v.push(pos(&i)); v }), (a..b).collect()),
        6 => ("rfold", it.rfold(vec![], |mut v, i| { v.push(pos(&i)); v }), (a..b).rev().collect()),
        7 => ("skip", it.skip(k).map(f).collect(), (a..b).skip(k).collect()),
        8 => ("step_by", it.step_by(k + 1).map(f).collect(), (a..b).step_by(k + 1).collect()),
        9 => ("take", it.take(k).map(f).collect(), (a..b).take(k).collect()),
        10 => {
            let (mut x, mut c) = (it, k);
            let p = x.position(|_| {
                let hit = c == 0;
                c = c.wrapping_sub(1);
                hit
            });
            let mut y = a..b;
            let mut d = k;
            let q = y.position(|_| {
                let hit = d == 0;
                d = d.wrapping_sub(1);
                hit
            });
            ("position and rest", p.into_iter().chain(x.map(f)).collect(), q.into_iter().chain(y).collect())
        }
        11 => {
            let mut x = it;
            let p = x.rfind(|i| pos(i) <= a + k / 2).map(f);
            let mut y = a..b;
            let q = y.rfind(|i| *i <= a + k / 2);
            ("rfind and rest", p.into_iter().chain(x.map(f)).collect(), q.into_iter().chain(y).collect())
        }
        12 => ("rev and skip", it.rev().skip(k).map(f).collect(), (a..b).rev().skip(k).collect()),
        _ => {
            let mut x = it;
            let mut v: Vec<usize> = x.by_ref().take(k).map(f).collect();
            v.extend(x.rev().map(f));
            let mut y = a..b;
            let mut w: Vec<usize> = y.by_ref().take(k).collect();
            w.extend(y.rev());
            ("take and rev", v, w)
        }
    };
    ev!("{} of {} positions", what, n);
    if got != exp {
        flag(tags, what, format!("{} of {}..{} ({}): {:?}", what, a, b, k, got));
    }
}

fn iterate<'id, P: Copy>(p: &mut Pool<'id>, r: Range<'id, P>, s: usize, e: usize, len: usize) {
    let mut it = r.into_iter();
    let (mut a, mut b) = (s, e);
    for _ in 0..1 + choose(6) {
        iter_use(DIV, &mut it, &mut a, &mut b, |i| i.integer(), |what, i, x| p.put_i(len, DIV, what, i, Some(x)));
        if crate::sim::flagged() {
            return;
        }
        if choose(4) == 0 {
            p.put_r(len, DIV, "into_range", it.into_range(), Some((a, b)));
        }
    }
    p.put_r(len, DIV, "into_range", it.into_range(), Some((a, b)));
}

//! Workers share out the positions of a container: split, steal, rejoin, crash, hand back.

use super::algebra::{plain, unk, Tags};
use crate::ev;
use crate::sim::{chance, check_stop, choose, fault, flag, mark, nontrivial, probe, small, state, weighted};
use crate::store::SimStore;
use crate::elem::Small;
use indexing::container_traits::*;
use indexing::indexing::RangeIter;
use indexing::{scope, Container, Index, NonEmpty, Range};

const T: Tags = &["C04"];

#[derive(Clone, Copy)]
enum Piece<'id> {
    R(Range<'id>),
    N(Range<'id, NonEmpty>),
    It(RangeIter<'id>),
}
use Piece::*;

impl<'id> Piece<'id> {
    fn span(&self) -> (usize, usize) {
        match self {
            R(r) => (r.start(), r.end()),
            N(r) => (r.start(), r.end()),
            It(i) => {
                let r = i.into_range();
                (r.start(), r.end())
            }
        }
    }
    fn range(&self) -> Range<'id> {
        match self {
            R(r) => *r,
            N(r) => unk(*r),
            It(i) => plain(T, "into_range", i.into_range()),
        }
    }
}

struct Board<'id> {
    /// waiting pieces, then the piece each worker is busy with
    queue: Vec<Piece<'id>>,
    hands: Vec<Option<Piece<'id>>>,
    done: Vec<(usize, usize)>,
    len: usize,
}

impl<'id> Board<'id> {
    /// The pieces in circulation and the work done tile 0..len, whatever has happened so far.
    fn check(&self, what: &str) {
        let mut all: Vec<(usize, usize, u8)> = Vec::new();
        for p in self.queue.iter().chain(self.hands.iter().flatten()) {
            let (s, e) = p.span();
            if s > e || e > self.len {
                flag(&["C04", "C01"], &format!("{}: out of bounds", what), format!("{}..{} of {}", s, e, self.len));
                check_stop();
            }
            if let N(_) = p {
                if s >= e {
                    flag(&["C04", "C01"], &format!("{}: proof", what), format!("{}..{} claimed non-empty", s, e));
                    check_stop();
                }
            }
            if s < e {
                all.push((s, e, 0));
            }
        }
        all.extend(self.done.iter().map(|d| (d.0, d.1, 1)));
        all.sort();
        let mut at = 0;
        for (s, e, _) in all {
            if s != at {
                flag(
                    T,
                    what,
                    format!(
                        "after {}: positions {}..{} of {} are {}",
                        what,
                        s.min(at),
                        s.max(at),
                        self.len,
                        if s > at { "lost" } else { "duplicated" }
                    ),
                );
                check_stop();
            }
            at = e;
        }
        if at != self.len {
            flag(T, what, format!("after {}: positions {}..{} are lost", what, at, self.len));
        }
        check_stop();
    }
    fn finish(&mut self, s: usize, e: usize) {
        if s >= e {
            return;
        }
        self.done.push((s, e));
        self.done.sort();
        let mut out: Vec<(usize, usize)> = Vec::new();
        for &(s, e) in &self.done {
            match out.last_mut() {
                Some(l) if l.1 == s => l.1 = e,
                _ => out.push((s, e)),
            }
        }
        self.done = out;
    }
}

/// Does the work of one position (or, for huge containers, of a whole piece).
trait Site<'id> {
    fn len(&self) -> usize;
    fn work(&mut self, i: Index<'id>);
    fn split_at(&self, i: Index<'id>) -> (Range<'id>, Range<'id, NonEmpty>);
    fn split_after(&self, i: Index<'id>) -> (Range<'id, NonEmpty>, Range<'id>);
    fn split_around(&self, r: Range<'id>) -> (Range<'id>, Range<'id>);
    fn before_after(&self, i: Index<'id>) -> (Range<'id>, Range<'id>);
    fn range(&self) -> Range<'id>;
    fn grow(&mut self) -> Option<Range<'id>>;
    fn scan(&self, r: Range<'id>) -> Option<(Range<'id>, Range<'id>)>;
    fn huge(&self) -> bool;
}

macro_rules! site_common {
    () => {
        fn len(&self) -> usize { self.0.len() }
        fn split_at(&self, i: Index<'id>) -> (Range<'id>, Range<'id, NonEmpty>) {
            let (a, b) = self.0.split_at(i);
            (plain(T, "Container::split_at", a), b)
        }
        fn split_after(&self, i: Index<'id>) -> (Range<'id, NonEmpty>, Range<'id>) {
            let (a, b) = self.0.split_after(i);
            (a, plain(T, "split_after", b))
        }
        fn split_around(&self, r: Range<'id>) -> (Range<'id>, Range<'id>) {
            let (a, b) = self.0.split_around(r);
            (plain(T, "split_around", a), plain(T, "split_around", b))
        }
        fn before_after(&self, i: Index<'id>) -> (Range<'id>, Range<'id>) {
            (plain(T, "before", self.0.before(i)), plain(T, "after", self.0.after(i)))
        }
        fn range(&self) -> Range<'id> { plain(T, "range", self.0.range()) }
    };
}
struct Fixed<'id, 'a>(Container<'id, &'a mut [u32]>);
impl<'id, 'a> Site<'id> for Fixed<'id, 'a> {
    site_common!();
    fn work(&mut self, i: Index<'id>) {
        self.0[i] += 1;
    }
    fn grow(&mut self) -> Option<Range<'id>> {
        None
    }
    fn scan(&self, r: Range<'id>) -> Option<(Range<'id>, Range<'id>)> {
        let (a, b) = self.0.scan_range(r, |_| !chance(1, 4));
        Some((plain(T, "scan_range", a), plain(T, "scan_range", b)))
    }
    fn huge(&self) -> bool {
        false
    }
}
struct Growing<'id, 'a>(Container<'id, &'a mut SimStore<Small>, indexing::container::OnlyIndex>, Vec<u32>);
impl<'id, 'a> Site<'id> for Growing<'id, 'a> {
    site_common!();
    fn work(&mut self, i: Index<'id>) {
        self.1[i.integer()] += 1;
    }
    fn grow(&mut self) -> Option<Range<'id>> {
        let i = self.0.push(crate::elem::Elem::new(0));
        self.1.push(0);
        let r = if choose(2) == 0 { plain(T, "range_of", self.0.range_of(i..)) } else { plain(T, "split_at", self.0.split_at(i).1) };
        Some(r)
    }
    fn scan(&self, r: Range<'id>) -> Option<(Range<'id>, Range<'id>)> {
        let (a, b) = self.0.scan_range(r, |_| !chance(1, 4));
        Some((plain(T, "scan_range", a), plain(T, "scan_range", b)))
    }
    fn huge(&self) -> bool {
        false
    }
}
struct Huge<'id, 'a>(Container<'id, &'a [()]>);
impl<'id, 'a> Site<'id> for Huge<'id, 'a> {
    site_common!();
    fn work(&mut self, _: Index<'id>) {}
    fn grow(&mut self) -> Option<Range<'id>> {
        None
    }
    fn scan(&self, _: Range<'id>) -> Option<(Range<'id>, Range<'id>)> {
        None
    }
    fn huge(&self) -> bool {
        true
    }
}

fn half(what: &str, s: usize, e: usize, mid: usize) {
    if mid != s + (e - s) / 2 {
        flag(T, &format!("{}: not in half", what), format!("{}..{} was cut at {}", s, e, mid));
    }
}

fn do_one<'id, S: Site<'id>>(site: &mut S, b: &mut Board<'id>, i: Index<'id>, what: &str) {
    let v = i.integer();
    if v >= b.len {
        flag(&["C04", "C01"], &format!("{}: out of bounds", what), format!("position {} of {}", v, b.len));
        check_stop();
    }
    site.work(i);
    b.finish(v, v + 1);
}

fn drive<'id, S: Site<'id>>(site: &mut S, steps: usize) {
    let workers = 1 + choose(4);
    let len = site.len();
    let mut b = Board { queue: vec![], hands: vec![None; workers], done: vec![], len };
    let root = site.range();
    // the work is divided once before the workers start
    let first = root.nonempty().ok().map(|r| {
        let k = small((len - 1).min(1 << 20));
        r.contains(if choose(2) == 0 { k } else { len - 1 - k }).unwrap_or(r.first())
    });
    let what;
    match (choose(6), first) {
        (0, Some(i)) => {
            what = "Container::split_at";
            let (x, y) = site.split_at(i);
            if x.end() != i.integer() {
                flag(T, what, format!("cut at {} instead of {}", x.end(), i.integer()));
            }
            b.queue = vec![R(x), N(y)];
        }
        (1, Some(i)) => {
            what = "split_after";
            let (x, y) = site.split_after(i);
            if y.start() != i.integer() + 1 {
                flag(T, what, format!("cut at {} instead of {}", y.start(), i.integer() + 1));
            }
            b.queue = vec![N(x), R(y)];
        }
        (2, Some(i)) => {
            what = "split_around";
            let (_, tail) = site.split_at(i);
            let (_, mid, _) = {
                let (m, r, _) = tail.split_at(small(tail.len().min(50)));
                ((), plain(T, what, m), r)
            };
            let (x, y) = site.split_around(mid);
            b.queue = vec![R(x), R(mid), R(y)];
        }
        (3, Some(i)) => {
            what = "before and after";
            let (x, y) = site.before_after(i);
            b.queue = vec![R(x), R(y)];
            do_one(site, &mut b, i, what);
        }
        _ => {
            what = "range";
            b.queue = vec![R(root)];
        }
    }
    b.check(what);
    for _ in 0..steps {
        mark();
        let w = choose(workers);
        // idle workers take something
        if b.hands[w].is_none() {
            if b.queue.is_empty() {
                // steal: a busy worker gives up half of what it has
                let v = choose(workers);
                if v != w {
                    if let Some(p) = b.hands[v] {
                        let (s, e) = p.span();
                        ev!("worker {} steals from {} ({}..{})", w, v, s, e);
                        nontrivial();
                        let (x, y) = p.range().split_in_half();
                        let (x, y) = (plain(T, "steal", x), plain(T, "steal", y));
                        half("split_in_half", s, e, x.end());
                        b.hands[v] = Some(R(x));
                        b.hands[w] = Some(R(y));
                        b.check("steal");
                    }
                }
            } else {
                let k = choose(b.queue.len());
                b.hands[w] = Some(b.queue.swap_remove(k));
            }
            continue;
        }
        let p = b.hands[w].take().unwrap();
        let (s, e) = p.span();
        let n = p.range().nonempty();
        if n.is_ok() != (s < e) {
            flag(T, "nonempty", format!("{}..{} non-empty: {}", s, e, n.is_ok()));
        }
        ev!("worker {} has {}..{}", w, s, e);
        let act = weighted(&[4, 3, 2, 3, 4, 3, 2, 2, 2, 2, 1]);
        let name: &str;
        match act {
            0 => {
                name = "split_in_half";
                match (p, n) {
                    (N(r), _) => {
                        let (x, y) = r.split_in_half();
                        half(name, s, e, x.end());
                        b.hands[w] = Some(N(y));
                        b.queue.push(R(plain(T, name, x)));
                    }
                    _ => {
                        let (x, y) = p.range().split_in_half();
                        half(name, s, e, x.end());
                        b.hands[w] = Some(R(plain(T, name, x)));
                        b.queue.push(R(plain(T, name, y)));
                    }
                }
            }
            1 => {
                name = "Range::split_at";
                let k = small((e - s).min(1 << 30)) + choose(2);
                let (x, y, ok) = p.range().split_at(k);
                if ok != (k <= e - s) || x.end() != s.saturating_add(k).min(e) {
                    flag(T, name, format!("{}..{} at {}: cut at {}, {}", s, e, k, x.end(), ok));
                }
                b.hands[w] = Some(R(plain(T, name, y)));
                b.queue.push(R(plain(T, name, x)));
            }
            2 => {
                name = "subdivide";
                let size = e - s;
                if size > 0 {
                    let k = (1 + choose(7)).min(size);
                    ev!("subdivide {}..{} in {}", s, e, k);
                    let before = b.queue.len();
                    let (mut lo, mut hi) = (usize::MAX, 0);
                    let mut it = p.range().subdivide(k);
                    while let Some(q) = it.next() {
                        lo = lo.min(q.end().wrapping_sub(q.start()));
                        hi = hi.max(q.end().wrapping_sub(q.start()));
                        b.queue.push(N(q));
                        if b.queue.len() - before > k {
                            break;
                        }
                    }
                    if b.queue.len() - before <= k {
                        // another worker asks once more
                        b.queue.extend(it.next().map(N));
                    }
                    if b.queue.len() - before != k {
                        flag(T, "subdivide: parts", format!("{} parts for {}", b.queue.len() - before, k));
                    } else if hi - lo > 1 {
                        flag(T, "subdivide: uneven", format!("{}..{} in {} parts: sizes {} to {}", s, e, k, lo, hi));
                    }
                } else {
                    b.hands[w] = Some(p);
                }
            }
            3 => {
                // work off one end, keep the rest
                match n {
                    Err(_) => name = "empty piece dropped",
                    Ok(r) => match choose(6) {
                        0 => {
                            name = "first and tail";
                            b.hands[w] = Some(R(plain(T, name, r.tail())));
                            do_one(site, &mut b, r.first(), name);
                        }
                        1 => {
                            name = "last and init";
                            b.hands[w] = Some(R(plain(T, name, r.init())));
                            do_one(site, &mut b, r.last(), name);
                        }
                        2 => {
                            name = "advance";
                            let mut q = r;
                            let i = r.first();
                            if q.advance() {
                                b.hands[w] = Some(N(q));
                            }
                            do_one(site, &mut b, i, name);
                        }
                        3 => {
                            name = "advance_back";
                            let mut q = r;
                            let i = r.last();
                            if q.advance_back() {
                                b.hands[w] = Some(N(q));
                            }
                            do_one(site, &mut b, i, name);
                        }
                        4 => {
                            name = "advance_";
                            let i = r.first();
                            if let Ok(q) = r.advance_() {
                                b.hands[w] = Some(N(q));
                            }
                            do_one(site, &mut b, i, name);
                        }
                        _ => {
                            name = "advance_by";
                            let k = small((e - s).min(1 << 30));
                            let mut q = r;
                            let (x, ..) = r.split_at(k);
                            if q.advance_by(k) {
                                b.hands[w] = Some(N(q));
                                b.queue.push(R(plain(T, name, x)));
                            } else if k < e - s {
                                flag(T, name, format!("advance_by({}) of {}..{} refused", k, s, e));
                            } else {
                                b.hands[w] = Some(N(r));
                            }
                        }
                    },
                }
            }
            4 => {
                name = "iterate";
                let mut it = match p {
                    It(i) => i,
                    _ => p.range().into_iter(),
                };
                for _ in 0..1 + choose(4) {
                    let g = match choose(8) {
                        0..=3 => it.next(),
                        4..=6 => it.next_back(),
                        _ => {
                            // skip some, which go back to the queue
                            let left = it.into_range();
                            let k = small(left.len().min(40)) + choose(2);
                            ev!("skip {} of {:?}", k, left);
                            if choose(2) == 0 {
                                let (x, ..) = left.split_at(k);
                                b.queue.push(R(plain(T, name, x)));
                                it.nth(k)
                            } else {
                                let (_, x, ..) = left.split_at(left.len() - k.min(left.len()));
                                b.queue.push(R(plain(T, name, x)));
                                it.nth_back(k)
                            }
                        }
                    };
                    if let Some(i) = g {
                        do_one(site, &mut b, i, name);
                    }
                    if chance(1, 10) {
                        // the worker dies in the middle of its loop
                        fault("worker_crash");
                        ev!("worker {} dies", w);
                        break;
                    }
                }
                b.hands[w] = Some(It(it));
            }
            5 => {
                name = "hand back";
                fault("worker_crash");
                ev!("worker {} dies, its work goes back", w);
                b.queue.push(match p {
                    It(i) => R(plain(T, name, i.into_range())),
                    p => p,
                });
            }
            6 | 7 => {
                name = "join";
                b.hands[w] = Some(p);
                if let Some(k) = (0..b.queue.len()).find(|_| choose(2) == 0) {
                    let q = b.queue[k];
                    let (t, f) = q.span();
                    let (joined, exp) = match (p, q) {
                        (N(x), N(y)) => (x.join(y).map(N).ok(), e == t),
                        (R(x), N(y)) => (x.join(y).map(N).ok(), e == t),
                        (N(x), R(y)) => (x.join(y).map(N).ok(), e == t),
                        (x, y) => (x.range().join(y.range()).map(|j| R(plain(T, name, j))).ok(), e == t),
                    };
                    if joined.is_some() != exp {
                        flag(T, name, format!("join({}..{}, {}..{}): {}", s, e, t, f, joined.is_some()));
                    }
                    if let Some(j) = joined {
                        probe("rejoined");
                        b.queue.swap_remove(k);
                        b.hands[w] = Some(j);
                    }
                }
            }
            8 => {
                // neighbours: cover both, when nothing lies between them
                name = "join_cover_both";
                b.hands[w] = Some(p);
                if let Some(k) = b.queue.iter().position(|q| q.span().0 == e || q.span().1 == s) {
                    let q = b.queue.swap_remove(k);
                    probe("cover-joined");
                    b.hands[w] = Some(match (p, q) {
                        (N(x), N(y)) => N(x.join_cover_both(y)),
                        (N(x), y) => N(x.join_cover_both(y.range())),
                        (x, N(y)) => N(x.range().join_cover_both(y)),
                        (x, y) => R(plain(T, name, x.range().join_cover_both(y.range()))),
                    });
                    if s < e && q.span().0 == e && choose(2) == 0 {
                        // only one of the two directions may extend with join_cover
                        let y = q.range();
                        b.hands[w] = Some(match p {
                            N(x) => N(x.join_cover(y)),
                            x => R(plain(T, name, x.range().join_cover(y))),
                        });
                    }
                }
            }
            9 => {
                name = "scan_range";
                b.hands[w] = Some(p);
                if e - s <= 64 {
                    if let Some((x, y)) = site.scan(p.range()) {
                        b.hands[w] = Some(R(x));
                        b.queue.push(R(y));
                    }
                }
            }
            _ => {
                name = "growth";
                b.hands[w] = Some(p);
                if let Some(r) = site.grow() {
                    b.len += 1;
                    if site.len() != b.len {
                        flag(&["C04", "C02"], "length", format!("{} should be {}", site.len(), b.len));
                    }
                    b.queue.push(R(r));
                }
            }
        }
        b.check(name);
        if site.huge() {
            // bulk work keeps huge runs bounded
            if let Some(p) = b.hands[w] {
                if chance(1, 6) {
                    let (s, e) = p.span();
                    b.hands[w] = None;
                    b.finish(s, e);
                }
            }
        }
        state(&[
            b.len as u64,
            b.queue.len() as u64,
            b.queue.iter().map(|p| p.span()).fold(0, |a, (s, e)| a.wrapping_mul(31).wrapping_add(s.wrapping_mul(67).wrapping_add(e) as u64)),
            b.done.len() as u64,
        ]);
    }
    // no more faults: whoever is left finishes the job
    let mut rest: Vec<Piece<'id>> = b.queue.drain(..).collect();
    rest.extend(b.hands.iter_mut().filter_map(|h| h.take()));
    for p in rest {
        let (s, e) = p.span();
        if site.huge() {
            b.finish(s, e);
            continue;
        }
        if choose(2) == 0 {
            for i in p.range() {
                do_one(site, &mut b, i, "iterate");
                if b.done.iter().map(|d| d.1 - d.0).sum::<usize>() > b.len {
                    break;
                }
            }
        } else {
            let mut back = e;
            for i in p.range().into_iter().rev() {
                back -= 1;
                if i.integer() != back {
                    flag(T, "iterate backwards", format!("{} after {}", i.integer(), back + 1));
                    check_stop();
                }
                do_one(site, &mut b, i, "iterate backwards");
            }
        }
    }
    b.check("completion");
    if b.done.len() > 1 {
        flag(T, "completion", format!("work done: {:?} of {}", b.done, b.len));
    }
}

fn each_once(v: &[u32]) {
    if let Some(k) = v.iter().position(|x| *x != 1) {
        flag(T, "processed exactly once", format!("position {} was processed {} times", k, v[k]));
    }
    check_stop();
}

pub fn c04() {
    if chance(1, 3) {
        return super::history::c04();
    }
    let steps = [8, 20, 45, 90][weighted(&[2, 3, 3, 2])];
    match weighted(&[5, 2, 2]) {
        0 => {
            let n = [0, 1, 2, 3 + choose(10), 10 + choose(60)][weighted(&[1, 1, 1, 4, 4])];
            ev!("{} positions", n);
            let mut v = vec![0u32; n];
            scope(&mut v[..], |c| drive(&mut Fixed(c), steps));
            each_once(&v);
        }
        1 => {
            let n = choose(12);
            ev!("{} positions, growing", n);
            let mut st: SimStore<Small> = SimStore::new(&vec![0; n]);
            let counts = scope(&mut st, |c| {
                let mut g = Growing(c.only_index(), vec![0; n]);
                drive(&mut g, steps);
                g.1
            });
            each_once(&counts);
        }
        _ => {
            let max = isize::MAX as usize;
            let n = match choose(3) {
                0 => max - choose(3),
                1 => max / 2 + choose(3),
                _ => 1 << (20 + choose(42)),
            };
            ev!("{} positions", n);
            let mut v: Vec<()> = Vec::new();
            unsafe { v.set_len(n) };
            scope(&v[..], |c| drive(&mut Huge(c), steps));
        }
    }
}

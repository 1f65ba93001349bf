//! C17: particles as keys. Simulated clients share hash maps, ordered maps, a priority queue and
//! sorted lists keyed by particles, with a hasher controlled by the simulator (its seed, how much
//! it collides, and when it dies), while the container grows; everything is compared with the
//! same collections keyed by plain positions.

use super::algebra::{self, Pool};
use super::history::{keys, length};
use crate::elem::Small;
use crate::ev;
use crate::sim::{attempt, chance, check_stop, choose, crash_point, fault, flag, mark, nontrivial, pick, probe, state, weighted};
use crate::store::{Arena, SimStore};
use indexing::container_traits::Trustworthy;
use indexing::proof::Provable;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};

const T: &[&str] = &["C17"];

thread_local! { static FUSE: Cell<u64> = const { Cell::new(0) }; }

/// The hasher of the simulated deployment.
#[derive(Clone, Copy)]
struct Build {
    seed: u64,
    mask: u64,
}
struct H(u64, u64);
impl BuildHasher for Build {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(self.seed, self.mask)
    }
}
impl Hasher for H {
    fn write(&mut self, b: &[u8]) {
        FUSE.with(|f| match f.get() {
            0 => {}
            1 => {
                f.set(0);
                crate::sim::crash("hasher_panic")
            }
            n => f.set(n - 1),
        });
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        }
    }
    fn finish(&self) -> u64 {
        let x = (self.0 ^ (self.0 >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        (x ^ (x >> 32)) & self.1
    }
}

/// What a key feeds to a hasher.
#[derive(Default)]
struct Record(Vec<u8>);
impl Hasher for Record {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn stream<K: Hash>(k: &K) -> Vec<u8> {
    let mut r = Record::default();
    k.hash(&mut r);
    r.0
}

/// Every way to compare two keys gives what it gives for the plain values.
fn compare<A, B, V>(a: &A, b: &B, x: V, y: V, what: &str)
where
    A: PartialOrd<B> + Debug,
    B: PartialOrd<A> + Debug,
    V: Ord + Copy + Debug,
{
    let got = [
        ("==", a == b, x == y),
        ("!=", a != b, x != y),
        ("<", a < b, x < y),
        ("<=", a <= b, x <= y),
        (">", a > b, x > y),
        (">=", a >= b, x >= y),
        ("==", b == a, x == y),
        ("<", b < a, y < x),
        ("<=", b <= a, y <= x),
        (">", b > a, y > x),
        (">=", b >= a, y >= x),
        ("partial_cmp", a.partial_cmp(b) == Some(x.cmp(&y)), true),
        ("partial_cmp", b.partial_cmp(a) == Some(y.cmp(&x)), true),
    ];
    for (op, g, w) in got {
        if g != w {
            flag(T, &format!("{} {}", what, op), format!("{} {:?} and {:?}: {} gives {}", what, x, y, op, g));
        }
    }
}
fn total<K, V>(a: K, b: K, c: K, x: V, y: V, z: V, what: &str)
where
    K: Ord + Copy + Debug + Hash,
    V: Ord + Copy + Debug,
{
    compare(&a, &b, x, y, what);
    let want = x.cmp(&y);
    let pos = |k: K| if k == a { x } else { y };
    let got = [
        ("cmp", a.cmp(&b) == want),
        ("max", pos(a.max(b)) == x.max(y)),
        ("min", pos(a.min(b)) == x.min(y)),
        ("sort", {
            let (mut k, mut v) = (vec![a, b, c], vec![x, y, z]);
            k.sort();
            v.sort();
            let v2: Vec<V> = k.iter().map(|q| if *q == a { x } else if *q == b { y } else { z }).collect();
            v == v2
        }),
        ("clamp", x > y || {
            let (k, v) = (c.clamp(a, b), z.clamp(x, y));
            v == if k == a { x } else if k == b { y } else { z }
        }),
        ("hash", (stream(&a) == stream(&b)) == (x == y)),
    ];
    for (op, ok) in got {
        if !ok {
            flag(T, &format!("{} {}", what, op), format!("{} {:?}, {:?}, {:?}: {}", what, x, y, z, op));
        }
    }
    if want == Ordering::Equal && stream(&a) != stream(&b) {
        flag(T, &format!("{} hash", what), format!("{} {:?}: equal but hashed differently", what, x));
    }
}

/// Two particles, often equal or nearly so.
fn two<X: Copy>(v: &[X]) -> Option<(X, X, X)> {
    if v.is_empty() {
        return None;
    }
    Some((pick(v), pick(v), pick(v)))
}

/// The collections the clients share.
struct Shop<'id> {
    claims: HashMap<Index<'id>, u32, Build>,
    claims_m: HashMap<usize, u32>,
    done: HashMap<Range<'id>, u32, Build>,
    done_m: HashMap<(usize, usize), u32>,
    queue: BTreeMap<Range<'id>, u32>,
    queue_m: BTreeMap<(usize, usize), u32>,
    edges: BTreeSet<Index<'id, Unknown>>,
    edges_m: BTreeSet<usize>,
    heap: BinaryHeap<Range<'id, NonEmpty>>,
    heap_m: BinaryHeap<(usize, usize)>,
    list: Vec<Index<'id>>,
    list_m: Vec<usize>,
}

fn bounds<P>(r: &Range<P>) -> (usize, usize) {
    (r.start(), r.end())
}
fn same<X: PartialEq + Debug>(what: &str, got: X, want: X) {
    if got != want {
        flag(T, what, format!("{}: {:?}, should be {:?}", what, got, want));
    }
}

impl<'id> Shop<'id> {
    fn new(b: Build) -> Self {
        Shop {
            claims: HashMap::with_hasher(b),
            claims_m: HashMap::new(),
            done: HashMap::with_hasher(b),
            done_m: HashMap::new(),
            queue: BTreeMap::new(),
            queue_m: BTreeMap::new(),
            edges: BTreeSet::new(),
            edges_m: BTreeSet::new(),
            heap: BinaryHeap::new(),
            heap_m: BinaryHeap::new(),
            list: vec![],
            list_m: vec![],
        }
    }
    fn op(&mut self, p: &Pool<'id>, val: u32) {
        match choose(10) {
            0 => {
                if let Some((i, v)) = p.pick_i() {
                    let got = self.claims.insert(i, val);
                    same("claim", got, self.claims_m.insert(v, val));
                }
            }
            1 => {
                if let Some((i, v)) = p.pick_i() {
                    same("claimed", self.claims.get(&i), self.claims_m.get(&v));
                    if choose(2) == 0 {
                        let got = self.claims.remove(&i);
                        same("release", got, self.claims_m.remove(&v));
                    }
                }
            }
            2 => {
                if let Some((r, s, e)) = p.pick_any_range() {
                    let got = self.done.insert(r, val);
                    same("mark done", got, self.done_m.insert((s, e), val));
                }
            }
            3 => {
                if let Some((r, s, e)) = p.pick_any_range() {
                    same("is done", self.done.get(&r), self.done_m.get(&(s, e)));
                    if choose(2) == 0 {
                        let got = self.done.remove(&r);
                        same("undo", got, self.done_m.remove(&(s, e)));
                    }
                }
            }
            4 => {
                if let Some((r, s, e)) = p.pick_any_range() {
                    let got = self.queue.insert(r, val);
                    same("enqueue", got, self.queue_m.insert((s, e), val));
                }
            }
            5 => {
                let got = if choose(2) == 0 { self.queue.pop_first() } else { self.queue.pop_last() };
                if let Some((r, v)) = got {
                    same("dequeue", self.queue_m.remove(&bounds(&r)), Some(v));
                    let left = |x: &(usize, usize)| *x < bounds(&r);
                    if self.queue_m.keys().any(left) && !self.queue_m.keys().all(left) {
                        flag(T, "dequeue", format!("{:?} from the middle of {:?}", bounds(&r), self.queue_m));
                    }
                } else {
                    same("dequeue", 0, self.queue_m.len());
                }
            }
            6 => {
                if let (Some((r, s, e)), Some((q, t, f))) = (p.pick_any_range(), p.pick_any_range()) {
                    if (s, e) <= (t, f) && r <= q {
                        let got: Vec<_> = self.queue.range(r..=q).map(|(r, v)| (bounds(r), *v)).collect();
                        let want: Vec<_> = self.queue_m.range((s, e)..=(t, f)).map(|(r, v)| (*r, *v)).collect();
                        same("queued between", got, want);
                    }
                }
            }
            7 => {
                if let Some((i, v)) = p.pick_edge() {
                    match choose(3) {
                        0 => same("edge", self.edges.insert(i), self.edges_m.insert(v)),
                        1 => same("edge removed", self.edges.remove(&i), self.edges_m.remove(&v)),
                        _ => same(
                            "next edge",
                            self.edges.range(i..).next().map(|i| i.integer()),
                            self.edges_m.range(v..).next().copied(),
                        ),
                    }
                }
            }
            8 => {
                if choose(3) > 0 {
                    if let Some((r, s, e)) = p.pick_n() {
                        self.heap.push(r);
                        self.heap_m.push((s, e));
                    }
                } else {
                    same("pop", self.heap.pop().map(|r| bounds(&r)), self.heap_m.pop());
                }
            }
            _ => {
                if let Some((i, v)) = p.pick_i() {
                    self.list.push(i);
                    self.list_m.push(v);
                    match choose(4) {
                        0 => {
                            self.list.sort();
                            self.list_m.sort();
                        }
                        1 => {
                            self.list.sort_by(|a, b| b.partial_cmp(a).unwrap_or(Ordering::Equal));
                            self.list_m.sort_by(|a, b| b.cmp(a));
                        }
                        2 => {
                            self.list.dedup();
                            self.list_m.dedup();
                        }
                        _ => same("contained", self.list.contains(&i), self.list_m.contains(&v)),
                    }
                    same("list", self.list.iter().map(|i| i.integer()).collect::<Vec<_>>(), self.list_m.clone());
                }
            }
        }
    }
    fn audit(&self) {
        same("claims", self.claims.len(), self.claims_m.len());
        for (i, v) in &self.claims {
            same("claims", self.claims_m.get(&i.integer()), Some(v));
        }
        same("done", self.done.len(), self.done_m.len());
        for (r, v) in &self.done {
            same("done", self.done_m.get(&bounds(r)), Some(v));
        }
        same(
            "queue",
            self.queue.iter().map(|(r, v)| (bounds(r), *v)).collect::<Vec<_>>(),
            self.queue_m.iter().map(|(r, v)| (*r, *v)).collect::<Vec<_>>(),
        );
        same("edges", self.edges.iter().map(|i| i.integer()).collect::<Vec<_>>(), self.edges_m.iter().copied().collect());
    }
}

fn clients<'id, A, M>(c: &mut Container<'id, A, M>, mut len: usize, steps: usize, push: Option<fn(&mut Container<'id, A, M>) -> Index<'id>>)
where
    A: Trustworthy,
{
    let n = 1 + choose(3);
    let build = Build { seed: choose(1 << 30) as u64, mask: [!0, 0, 1, 0x8000_0000_0000_0003][weighted(&[4, 1, 1, 1])] };
    if build.mask != !0 {
        fault("hash_collisions");
    }
    let crashes = chance(1, 3);
    let mut shop = Shop::new(build);
    let mut pools: Vec<Pool<'id>> = (0..n).map(|_| Pool::new()).collect();
    let mut last = 0;
    for t in 0..steps {
        mark();
        let who = choose(n);
        if who != last {
            nontrivial();
            last = who;
        }
        if pools[who].count() < 2 {
            algebra::step_op(c, &mut pools[who], len, 3);
            algebra::step_op(c, &mut pools[who], len, 0);
            if len > 0 {
                let k = choose(len.min(1 << 30));
                if let Ok(i) = c.vet(k) {
                    pools[who].put_i(len, T, "vet", i, None)
                }
            }
        }
        match weighted(&[5, 8, 4, 1, 1]) {
            0 => algebra::step(c, &mut pools[who], len),
            1 => {
                if crashes && chance(1, 6) {
                    FUSE.with(|f| f.set(crash_point(8)));
                }
                // a panicking hasher leaves a map as it was before the call
                let r = attempt(|| shop.op(&pools[who], t as u32));
                FUSE.with(|f| f.set(0));
                if let Err(k) = r {
                    ev!("client {} crashed: {}", who, k);
                    pools[who] = Pool::new();
                }
            }
            2 => {
                let (p, q) = (&pools[who], &pools[choose(n)]);
                match choose(4) {
                    0 => {
                        let all: Vec<_> = p.i.iter().chain(&q.i).copied().collect();
                        if let Some((a, b, c)) = two(&all) {
                            total(a.0, b.0, c.0, a.1, b.1, c.1, "index");
                        }
                        if let (Some((i, v)), Some((e, w))) = (p.pick_i(), q.pick_e()) {
                            compare(&i, &e, v, w, "index and edge index");
                            same("hash of an edge index", stream(&i) == stream(&e), v == w);
                        }
                    }
                    1 => {
                        let all: Vec<_> = p.e.iter().chain(&q.e).copied().chain(q.i.iter().map(|x| (x.0.no_proof(), x.1))).collect();
                        if let Some((a, b, c)) = two(&all) {
                            total(a.0, b.0, c.0, a.1, b.1, c.1, "edge index");
                        }
                    }
                    2 => {
                        let all: Vec<_> = p.r.iter().chain(&q.r).copied().chain(q.n.iter().map(|x| (algebra::unk(x.0), x.1, x.2))).collect();
                        if let Some((a, b, c)) = two(&all) {
                            total(a.0, b.0, c.0, (a.1, a.2), (b.1, b.2), (c.1, c.2), "range");
                        }
                    }
                    _ => {
                        let all: Vec<_> = p.n.iter().chain(&q.n).copied().collect();
                        if let Some((a, b, c)) = two(&all) {
                            total(a.0, b.0, c.0, (a.1, a.2), (b.1, b.2), (c.1, c.2), "non-empty range");
                            // one that has just lost, or been given, its proof
                            let x = algebra::unk(a.0);
                            compare(&x, &b.0, (a.1, a.2), (b.1, b.2), "range and non-empty range");
                            same("hash of a non-empty range", stream(&x) == stream(&b.0), (a.1, a.2) == (b.1, b.2));
                        }
                        if let (Some((r, s, e)), Some((k, x, y))) = (p.pick_r(), q.pick_n()) {
                            compare(&r, &k, (s, e), (x, y), "range and non-empty range");
                            same("hash of a non-empty range", stream(&r) == stream(&k), (s, e) == (x, y));
                        }
                    }
                }
            }
            3 => {
                if let (Some(push), true) = (push, len < 4000) {
                    // keys stay what they are while the container grows
                    let i = push(c);
                    len += 1;
                    pools[who].put_i(len, T, "push", i, Some(len - 1));
                }
            }
            _ => {
                let to = choose(n);
                let from = pools[who].clone();
                pools[to].receive(&from);
            }
        }
        check_stop();
        shop.audit();
        check_stop();
        state(&[
            len as u64,
            shop.claims_m.len() as u64,
            shop.queue_m.keys().fold(1, |h: u64, x| h.wrapping_mul(31).wrapping_add((x.0.wrapping_mul(64).wrapping_add(x.1)) as u64)),
            shop.heap_m.len() as u64,
        ]);
    }
}

#[cfg(not(feature = "shared"))]
fn pointers() {
    use indexing::pointer::{PIndex, PRange, PSlice};
    probe("pointer particles compared");
    let n = 1 + choose(9);
    let mut a: Arena<Small> = Arena::new(&keys(n));
    nontrivial();
    scope(a.slice_mut(), |c| {
        let all: Vec<PIndex<Small>> = c.pointer_range().into_iter().collect();
        let edge = |k: usize| -> PIndex<Small, Unknown> { if k < n { all[k].no_proof() } else { c.pointer_range().past_the_end() } };
        let ne = |s: usize, e: usize| -> Option<PRange<Small, NonEmpty>> { c.nonempty_range(edge(s), edge(e)).ok() };
        let any = |s: usize, e: usize| -> PRange<Small> {
            match ne(s, e) {
                Some(r) => r.no_proof(),
                // an empty one
                None if s == 0 => c.pointer_range().split_in_half().0.split_at_first(&c),
                None => ne(s - 1, s).map(|r| r.tail()).unwrap(),
            }
        };
        for _ in 0..1 + choose(12) {
            mark();
            let (s, t) = (choose(n + 1), choose(n + 1));
            let (e, f) = (s + choose(n - s + 1), t + choose(n - t + 1));
            ev!("{}..{} and {}..{}", s, e, t, f);
            same("pointer ==", edge(s) == edge(t), s == t);
            if s < n && t < n {
                same("pointer ==", all[s] == all[t], s == t);
                same("pointer !=", all[s] != all[t], s != t);
            }
            let (x, y) = (any(s, e), any(t, f));
            let (v, w) = ((s, e), (t, f));
            same("pointer range ==", x == y, v == w);
            same("pointer range !=", x != y, v != w);
            let (k, l): (PSlice<Small>, PSlice<Small>) = (x.into(), y.into());
            same("pointer slice ==", k == l, v == w);
            same("pointer slice !=", k != l, v != w);
            if let (Some(x2), Some(y2)) = (ne(s, e), ne(t, f)) {
                same("pointer range ==", x2 == y, v == w);
                same("pointer range ==", x == y2, v == w);
                same("pointer range ==", x2 == y2, v == w);
                let (k2, l2): (PSlice<Small, NonEmpty>, PSlice<Small, NonEmpty>) = (x2.into(), y2.into());
                same("pointer slice ==", k2 == l, v == w);
                same("pointer slice ==", k == l2, v == w);
                same("pointer slice ==", k2 == l2, v == w);
            }
            check_stop();
        }
    });
}

trait First<'id, A> {
    fn split_at_first(self, c: &Container<'id, A>) -> Self;
}
#[cfg(not(feature = "shared"))]
impl<'id, A: indexing::container_traits::Contiguous> First<'id, A> for indexing::pointer::PRange<'id, A::Item> {
    /// The empty range at the start of the container.
    fn split_at_first(self, c: &Container<'id, A>) -> Self {
        c.split_at_pointer(c.pointer_range().first()).0
    }
}

pub fn c17() {
    let steps = [10, 30, 80][weighted(&[2, 3, 2])];
    match weighted(&[4, 3, 2, 3]) {
        0 => {
            let mut a: SimStore<Small> = SimStore::new(&keys(length(false)));
            let n = a.a.ids().len();
            ev!("keys of a growable container of {}", n);
            scope(&mut a, |c| clients(&mut c.only_index(), n, steps, Some(|c| c.push(crate::elem::Elem::new(3)))));
        }
        1 => {
            let a: Arena<Small> = Arena::new(&keys(length(true)));
            let n = a.ids().len();
            ev!("keys of a slice of {}", n);
            scope(a.slice(), |mut c| clients(&mut c, n, steps, None));
        }
        2 => {
            probe("huge container");
            let n = pick(&[isize::MAX as usize, isize::MAX as usize - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 62]);
            ev!("keys of a container of {} zero-sized elements", n);
            let mut v: Vec<()> = Vec::new();
            unsafe { v.set_len(n) };
            scope(&v[..], |mut c| clients(&mut c, n, steps, None));
        }
        _ => {
            #[cfg(not(feature = "shared"))]
            pointers();
        }
    }
    check_stop();
}

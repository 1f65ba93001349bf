//! C10: searches under comparisons that lie, refuse to answer, are stuck or panic.

use super::sorts::shape;
use crate::elem::{self, compare, compare_unit, key_of, Big, Elem, Pair, Small, Tok, Word};
use crate::ev;
use crate::sim::{self, attempt_any, check_stop, choose, crash, flag, flag_known, mark, nontrivial, pick, probe, sim, state, weighted};
use crate::store::Arena;
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::pointer::{PIndex, PSlice};
use indexing::{scope, Container, NonEmpty, Unknown};
use std::cmp::Ordering::{self, Equal, Greater, Less};

const C: &[&str] = &["C10"];
const NAMES: [&str; 12] = [
    "binary_search",
    "binary_search_by",
    "binary_search_by_prange",
    "binary_search_by_prange_",
    "binary_search_by_pslice",
    "binary_search_by_pslice_",
    "lower_bound",
    "lower_bound_prange",
    "lower_bound_prange_",
    "lower_bound_pslice_",
    "lower_bound_pslice",
    "lower_bound_raw_ptr",
];
fn is_bound(k: usize) -> bool {
    k >= 6
}

pub fn limit(n: usize) -> u64 {
    2 * (usize::BITS - n.leading_zeros()) as u64 + 4
}

type Found = Result<usize, usize>;

/// Searches part `s..e` of the container through pointer particles.
fn part<'id, E, A>(k: usize, c: &Container<'id, A>, s: usize, e: usize, how: usize, mut f: impl FnMut(&E) -> Ordering) -> Found
where
    E: Elem,
    A: Contiguous<Item = E> + GetUnchecked,
{
    // the pointers of the ends, by walking
    let whole = c.pointer_range();
    let at = |v: usize| -> PIndex<'id, E, Unknown> {
        match whole.into_iter().nth(v) {
            Some(p) => indexing::proof::Provable::no_proof(p),
            None => whole.past_the_end(),
        }
    };
    let full = (s, e) == (0, c.len());
    let dist = |p: PIndex<'id, E, Unknown>| c.distance_to(p);
    macro_rules! go {
        ($r:expr) => {{
            let r = $r;
            match k {
                3 => binary_search_by_prange_(r, c, f).map(|p| c.distance_to(p)).map_err(dist),
                8 => Err(dist(lower_bound_prange_(r, c, |x| f(x) == Less))),
                5 => binary_search_by_pslice_(PSlice::from(r), c, f).map(|p| c.distance_to(p)).map_err(dist),
                _ => Err(dist(lower_bound_pslice_(PSlice::from(r), c, |x| f(x) == Less))),
            }
        }};
    }
    if s < e {
        let r = c.nonempty_range(at(s), at(e)).expect("ends in order");
        match how {
            0 => go!(r),
            _ => go!(indexing::proof::Provable::no_proof(r)),
        }
    } else if full || s == c.len() {
        go!(c.pointer_range_of(at(s)..))
    } else {
        // an empty range at s
        let n = c.nonempty_range(at(s), at(s + 1)).expect("ends in order");
        go!(n.split_in_half().0)
    }
}

fn search<E: Elem>() {
    let n = match weighted(&[120, 240, 180, 60, 1]) {
        0 => choose(4),
        1 => choose(20),
        2 => choose(130),
        3 => choose(700),
        _ => 1000 + choose(5000),
    };
    let mut ks = shape(n);
    if choose(5) > 0 {
        ks.sort();
    }
    let a: Arena<E> = Arena::new(&ks);
    let ids = a.ids();
    let first = ids.first().copied().unwrap_or(0);
    let range = (first, first + n as u32);
    for _ in 0..1 + choose(4) {
        mark();
        let k = choose(12);
        let name = NAMES[k];
        let key = match choose(4) {
            0 if n > 0 => ks[choose(n)],
            1 if n > 0 => ks[choose(n)] + 1,
            2 => pick(&[i32::MIN, i32::MAX, 0]),
            _ => choose(n + 3) as i32 - 1,
        };
        let elt = E::new(key);
        let (s, e) = if [3, 5, 8, 9].contains(&k) && choose(3) > 0 {
            let s = choose(n + 1);
            (s, s + choose(n - s + 1))
        } else {
            (0, n)
        };
        let lim = limit(e - s);
        let mut plan = sim::CmpPlan { keep: true, budget: lim + 1, ..Default::default() };
        plan.ids = vec![range, (elt.id(), elt.id() + 1)];
        let style = weighted(&[4, 4, 2, 3, 2]);
        match style {
            1 => plan.lie = [16, 64, 256][choose(3)],
            2 => plan.none = [64, 128, 256][choose(3)],
            3 => plan.stuck = 1 + choose(3) as u32,
            _ => {}
        }
        if style == 4 || choose(6) == 0 {
            plan.panic_at = 1 + choose(10) as u64;
        }
        plan.nest_at = super::sorts::nest(10);
        let panic_at = plan.panic_at;
        ev!("{} for {} in {}..{} of {}; panic at {}, lies {}/{}/{}", name, key, s, e, n, panic_at, plan.lie, plan.none, plan.stuck);
        let how = choose(2);
        sim().cmp = plan;
        let r: Result<Found, String> = attempt_any(|| {
            let v = a.slice();
            let f = |x: &E| compare(x.id(), elt.id()).unwrap_or(Equal);
            match k {
                0 => binary_search(v, &elt),
                1 => binary_search_by(v, f),
                2 => binary_search_by_prange(v, f),
                4 => binary_search_by_pslice(v, f),
                3 | 5 | 8 | 9 => match how {
                    0 => scope(v, |c| part(k, &c, s, e, choose(2), f)),
                    _ => scope(&a, |c| part(k, &c, s, e, choose(2), f)),
                },
                6 => Err(lower_bound(v, &elt)),
                7 => Err(lower_bound_prange(v, &elt)),
                10 => Err(lower_bound_pslice(v, |x: &E| compare(x.id(), elt.id()) == Some(Less))),
                _ => Err(lower_bound_raw_ptr(v, &elt)),
            }
        });
        let p = elem::end_plan();
        ev!("-> {:?} after {} comparisons", r, p.calls);
        check_stop();
        a.check_guards(name);
        if a.ids() != ids {
            flag(C, "slice changed", format!("{}: {:?} became {:?}", name, ids, a.ids()));
        }
        check_stop();
        // what was reported about position x of the slice (relative to the element sought)
        let said = |x: usize, want: &dyn Fn(Option<Ordering>) -> bool| {
            p.answers.iter().any(|&(l, m, o)| {
                if l == first + x as u32 && m == elt.id() {
                    want(o)
                } else if m == first + x as u32 && l == elt.id() {
                    want(o.map(|o| o.reverse()))
                } else {
                    false
                }
            })
        };
        let trace = || {
            let t: Vec<String> = p.answers.iter().map(|&(l, m, o)| format!("{}?{}={:?}", l as i64 - first as i64, m as i64 - first as i64, o)).collect();
            format!("{} in {}..{} of {}: {:?}; answers {}", name, s, e, n, r, t.join(" "))
        };
        match &r {
            Ok(f) => {
                if panic_at != 0 && p.calls >= panic_at {
                    flag(C, "panic swallowed", trace());
                }
                match *f {
                    Ok(x) => {
                        if is_bound(k) || x < s || x >= e {
                            flag(C, "hit out of range", trace());
                        } else if !said(x, &|o| o.unwrap_or(Equal) == Equal) {
                            flag(C, "hit not reported equal", trace());
                        }
                        probe("hit");
                    }
                    Err(x) => {
                        if x < s || x > e {
                            flag(C, "miss out of range", trace());
                            check_stop();
                        }
                        if x > s && !said(x - 1, &|o| o == Some(Less)) {
                            flag(C, "left neighbour not reported less", trace());
                        }
                        if x < e && !said(x, &|o| if is_bound(k) { o != Some(Less) } else { o == Some(Greater) }) {
                            flag(C, "right neighbour not reported so", trace());
                        }
                        probe("miss or bound");
                    }
                }
                // order-consistent: exact
                if p.lies == 0 && ks[s..e].windows(2).all(|w| w[0] <= w[1]) {
                    let exact = s + ks[s..e].partition_point(|x| *x < key);
                    match *f {
                        Ok(x) => {
                            if key_of(first + x as u32) != key {
                                flag(C, "wrong hit", trace());
                            }
                        }
                        Err(x) => {
                            if x != exact || (!is_bound(k) && ks[s..e].contains(&key)) {
                                flag(C, "wrong miss", trace());
                            }
                        }
                    }
                }
            }
            Err(e) if e == "cmp_panic" => {
                probe("search cut short");
                if p.calls != panic_at {
                    flag(C, "comparison after a panic", trace());
                }
            }
            Err(e) if e == "cmp_budget" => flag(C, "too many comparisons", trace()),
            Err(e) => flag(C, "panic", format!("{}: {}", e, trace())),
        }
        check_stop();
        if p.lies > 0 || p.calls > 3 {
            nontrivial();
        }
        state(&[k as u64, s as u64, e as u64, p.answers.iter().fold(7, |h, x| h.wrapping_mul(31).wrapping_add(x.2.map_or(9, |o| o as i8 as u64)))]);
    }
    drop(a);
    check_stop();
}

/// Zero-sized elements: slices as long as they get.
fn units() {
    nontrivial();
    let max = isize::MAX as usize;
    let n = pick(&[0usize, 1, 2, 3, 100, max, max - 1, 1 << 40, max / 2]);
    let mut v: Vec<()> = Vec::new();
    unsafe { v.set_len(n) };
    let k = choose(12);
    let lim = limit(n);
    let mut calls = 0u64;
    let mode = choose(4);
    let panic_at = if choose(4) == 0 { 1 + choose(70) as u64 } else { 0 };
    let (mut all_less, mut all_greater, mut any_equal) = (true, true, false);
    ev!("{} in {} zero-sized elements", NAMES[k], n);
    let mut f = |_: &()| -> Ordering {
        calls += 1;
        if calls == panic_at {
            crash("cmp_panic");
        }
        if calls > lim {
            crash("cmp_budget");
        }
        let o = match mode {
            0 => Less,
            1 => Greater,
            2 => [Less, Greater][choose(2)],
            _ => [Less, Greater, Less, Equal, Greater][choose(5)],
        };
        all_less &= o == Less;
        all_greater &= o == Greater;
        any_equal |= o == Equal;
        o
    };
    struct U;
    impl PartialEq for U {
        fn eq(&self, _: &U) -> bool { compare_unit() == Some(Equal) }
    }
    impl PartialOrd for U {
        fn partial_cmp(&self, _: &U) -> Option<Ordering> { compare_unit() }
    }
    let pointer = [2, 3, 4, 5, 7, 8, 9, 10].contains(&k);
    let unit = [6, 7, 11].contains(&k);
    if unit {
        let mut plan = sim::CmpPlan { budget: lim + 1, keep: true, panic_at, ..Default::default() };
        if mode < 2 {
            plan.stuck = 1 + 2 * mode as u32
        } else {
            plan.lie = 256
        }
        sim().cmp = plan;
    }
    let r: Result<Found, String> = attempt_any(|| {
        let us: &[U] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
        match k {
            0 | 1 => binary_search_by(&v[..], &mut f),
            2 => binary_search_by_prange(&v[..], &mut f),
            3 => scope(&v[..], |c| {
                let r = c.pointer_range();
                binary_search_by_prange_(r, &c, &mut f).map(|p| c.distance_to(p)).map_err(|p| c.distance_to(p))
            }),
            4 => binary_search_by_pslice(&v[..], &mut f),
            5 => scope(&v[..], |c| {
                let r = c.pointer_slice();
                binary_search_by_pslice_(r, &c, &mut f).map(|p| c.distance_to(p)).map_err(|p| c.distance_to(p))
            }),
            6 => Err(lower_bound(us, &U)),
            7 => Err(lower_bound_prange(us, &U)),
            8 => scope(&v[..], |c| {
                let r = c.pointer_range();
                Err(c.distance_to(lower_bound_prange_(r, &c, |x| f(x) == Less)))
            }),
            9 => scope(&v[..], |c| {
                let r = c.pointer_slice();
                Err(c.distance_to(lower_bound_pslice_(r, &c, |x| f(x) == Less)))
            }),
            10 => Err(lower_bound_pslice(&v[..], |x: &()| f(x) == Less)),
            _ => Err(lower_bound_raw_ptr(us, &U)),
        }
    });
    let mut exact = None;
    if unit {
        let p = elem::end_plan();
        calls = p.calls;
        if mode < 2 {
            all_less = mode == 0;
            all_greater = mode == 1;
        } else {
            all_less = false;
            all_greater = false;
        }
    }
    if all_less && !all_greater {
        exact = Some(Err(n));
    } else if all_greater && !all_less {
        exact = Some(Err(0));
    }
    ev!("-> {:?} after {}", r, calls);
    let ids: [&'static str; 12] = [
        "", "", "zst-search-binary-prange", "zst-search-binary-prange-part", "zst-search-binary-pslice",
        "zst-search-binary-pslice-part", "", "zst-search-lower-prange", "zst-search-lower-prange-part",
        "zst-search-lower-pslice-part", "zst-search-lower-pslice", "",
    ];
    let text = format!("{} in {} zero-sized elements: {:?} after {} comparisons", NAMES[k], n, r, calls);
    match &r {
        Err(e) if e == "cmp_panic" => {
            if calls != panic_at {
                flag(C, "comparison after a panic", text)
            }
        }
        Err(e) if e == "cmp_budget" => flag(C, "too many comparisons", text),
        // counting the distance between pointers to zero-sized elements, or asserting that such a
        // pointer is before the end
        Err(_) if pointer => flag_known(C, ids[k], text),
        Err(_) => flag(C, "panic", text),
        Ok(f) => {
            let out = match f {
                Ok(x) => *x >= n || !any_equal,
                Err(x) => *x > n,
            };
            if !out && pointer && n > 0 && *f == Err(0) {
                // as if there was nothing to search
                if calls == 0 || exact != Some(Err(0)) {
                    flag_known(C, ids[k], text)
                }
            } else if out || (n > 0 && calls > 0 && exact.is_some_and(|x| x != *f)) || (n > 0 && calls == 0) || (n == 0 && *f != Err(0)) {
                flag(C, "answer over zero-sized elements", text)
            }
            if panic_at != 0 && calls >= panic_at {
                flag(C, "panic swallowed", format!("{}", NAMES[k]))
            }
        }
    }
}

pub fn c10() {
    match weighted(&[5, 5, 4, 1, 3, 1]) {
        4 => search::<Word>(),
        5 => search::<Pair>(),
        0 => search::<Tok>(),
        1 => search::<Small>(),
        2 => search::<Big>(),
        _ => units(),
    }
}
#[allow(unused)]
type _N = NonEmpty;

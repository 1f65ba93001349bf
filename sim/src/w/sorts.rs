//! C07 and C08: in-place sorts and heapify under comparisons that panic, lie, refuse to answer or
//! are stuck, followed by a fault-free re-run.

use crate::elem::{self, ids, key_of, sorted, Big, Elem, Pair, Small, Tok, Unit, Word, GAS, UNITS};
use crate::ev;
use crate::sim::{self, attempt_any, chance, check_stop, choose, crash_point, flag, mark, nontrivial, pick, probe, seq, sim, state, weighted};
use crate::store::Arena;
use indexing::algorithms::*;
use std::cmp::Ordering;
use std::sync::atomic::Ordering::SeqCst;

pub const NAMES: [&str; 10] = [
    "quicksort_range",
    "quicksort_prange",
    "quicksort_bounds",
    "insertion_sort_indexes",
    "insertion_sort_ranges",
    "insertion_sort_pointerindex",
    "insertion_sort_prange_lower",
    "insertion_sort_rust",
    "insertion_sort2_indexes",
    "heapify",
];
const HEAP: usize = 9;
pub const TWO: usize = 8;
const STABLE: [usize; 5] = [3, 4, 5, 7, 8];

pub fn less<E: Elem>(a: &E, b: &E) -> bool {
    a.partial_cmp(b) == Some(Ordering::Less)
}

/// One call of a sorting routine.
pub fn sort<E: Elem>(k: usize, v: &mut [E], u: &mut [Small]) {
    match k {
        0 => quicksort_range(v),
        1 => quicksort_prange(v),
        2 => quicksort_bounds(v),
        3 => insertion_sort_indexes(v, less),
        4 => insertion_sort_ranges(v, less),
        5 => insertion_sort_pointerindex(v, less),
        6 => insertion_sort_prange_lower(v, less),
        7 => insertion_sort_rust(v, less),
        8 => insertion_sort2_indexes(v, u, less),
        _ => heapify(v),
    }
}

pub fn bound(k: usize, n: u64) -> u64 {
    match k {
        0..=2 => 8 * n * n + 64 * n + 64,
        HEAP => 4 * n + 16,
        _ => n * n + n + 16,
    }
}

/// The comparison from within which the library is used again; 0 = none.
pub fn nest(max: u64) -> u64 {
    if choose(12) == 11 { crash_point(max) } else { 0 }
}

/// Keys in one of many shapes.
pub fn shape(n: usize) -> Vec<i32> {
    let rnd = |m: usize| seq(n, m).into_iter().map(|x| x as i32).collect::<Vec<_>>();
    match choose(12) {
        0 => (0..n as i32).collect(),
        1 => (0..n as i32).rev().collect(),
        2 => vec![5; n],
        3 => rnd(2),
        4 => rnd(4),
        5 => (0..n).map(|i| i.min(n - i) as i32).collect(),
        6 => (0..n).map(|i| i.max(n - i) as i32).collect(),
        7 => {
            // nearly sorted
            let mut v: Vec<i32> = (0..n as i32).collect();
            for _ in 0..1 + choose(4) {
                if n > 1 {
                    v.swap(choose(n), choose(n));
                }
            }
            v
        }
        8 => {
            // two sorted runs
            let m = if n == 0 { 0 } else { choose(n) };
            (0..n).map(|i| if i < m { 2 * i as i32 } else { 2 * (i - m) as i32 + 1 }).collect()
        }
        9 => rnd(1 + n / 3),
        10 => (0..n).map(|i| (i % 5) as i32).collect(),
        _ => rnd(1000),
    }
}

fn size() -> usize {
    match weighted(&[192, 320, 256, 192, 64, 3]) {
        0 => choose(4),
        1 => choose(20),
        2 => 20 + choose(20),
        3 => 30 + choose(70),
        4 => 100 + choose(300),
        _ => 500 + choose(1500),
    }
}

/// As many elements as a 16 bit number cannot count.
fn huge() {
    probe("more than 65536 elements");
    let n = 65_500 + choose(3000);
    let k = pick(&[0, 1, 2, 3, 4, 5, 6, 7, HEAP, HEAP]);
    let ks: Vec<i32> = match k {
        0..=2 => seq(n, 1 << 30).into_iter().map(|x| x as i32).collect(),
        HEAP => match choose(3) {
            0 => (0..n as i32).rev().collect(),
            1 => seq(n, 7).into_iter().map(|x| x as i32).collect(),
            _ => seq(n, 1 << 30).into_iter().map(|x| x as i32).collect(),
        },
        _ => {
            // sorted, but for the last ones: linear work for an insertion sort
            let mut v: Vec<i32> = (0..n as i32).collect();
            for _ in 0..choose(4) {
                let i = n - 1 - choose(12);
                v.swap(i, n - 2);
            }
            v
        }
    };
    let mut a: Arena<Tok> = Arena::new(&ks);
    let before = a.ids();
    // (a binary insertion sort needs n log n comparisons)
    let limit = 64 * n as u64;
    let panic_at = if choose(3) == 0 { crash_point(limit / 32) } else { 0 };
    ev!("{} of {} elements, panic at {}", NAMES[k], n, panic_at);
    sim().cmp = sim::CmpPlan { budget: limit, panic_at, ..Default::default() };
    let r = attempt_any(|| sort(k, a.slice_mut(), &mut []));
    let p = elem::end_plan();
    ev!("-> {:?} after {}", r, p.calls);
    a.check_guards(NAMES[k]);
    let after = a.ids();
    if sorted(&after) != sorted(&before) {
        flag(C7, "elements lost", format!("{} of {} elements: {:?}", NAMES[k], n, r));
    }
    let ok = if k == HEAP { is_heap(&after) } else { is_sorted(&after) };
    match &r {
        Ok(()) if ok => {}
        Ok(()) => flag(C8, "not sorted", format!("{} of {} elements", NAMES[k], n)),
        Err(e) if e == "cmp_panic" => {}
        Err(e) => flag(C8, "panic", format!("{} of {} elements: {}", NAMES[k], n, e)),
    }
    if STABLE.contains(&k) && !keeps_order(&before, &after) {
        flag(C8, "order of equal elements", format!("{} of {} elements", NAMES[k], n));
    }
    nontrivial();
    drop(a);
    check_stop();
}

fn is_sorted(v: &[u32]) -> bool {
    v.windows(2).all(|w| key_of(w[0]) <= key_of(w[1]))
}
fn is_heap(v: &[u32]) -> bool {
    (1..v.len()).all(|i| key_of(v[(i - 1) / 2]) <= key_of(v[i]))
}
/// Elements of equal key keep the order they had.
fn keeps_order(before: &[u32], after: &[u32]) -> bool {
    let pos: std::collections::HashMap<u32, usize> = before.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let mut last: std::collections::HashMap<i32, usize> = std::collections::HashMap::new();
    for x in after {
        let p = pos[x];
        if let Some(q) = last.insert(key_of(*x), p) {
            if q > p {
                return false;
            }
        }
    }
    true
}

const C7: &[&str] = &["C07"];
const C8: &[&str] = &["C08"];

fn phases<E: Elem>(lockstep: bool) {
    let n = size();
    let ks = shape(n);
    let adapt = !lockstep && chance(1, 12);
    let mut a: Arena<E> = Arena::new(&ks);
    let mut b: Arena<Small> = Arena::new(&if lockstep { vec![0; n] } else { vec![] });
    let partner: std::collections::HashMap<u32, u32> = a.ids().into_iter().zip(b.ids()).collect();
    let all = sorted(&a.ids());
    let range = (all.first().copied().unwrap_or(0), all.last().map_or(0, |x| x + 1));
    // a sort may be given a part of a larger slice
    let (lo, hi) = if choose(4) == 0 && n > 2 {
        let x = choose(n);
        (x, x + choose(n - x + 1))
    } else {
        (0, n)
    };
    let n = hi - lo;
    let range = (range.0 + lo as u32, range.0 + hi as u32);
    let nphases = weighted(&[2, 4, 3, 1]);
    let mut done = false;
    let mut ph = 0;
    let mut honest_tries = 0;
    while !done {
        mark();
        let mut plan = sim::CmpPlan { ids: if n == 0 { vec![(u32::MAX, u32::MAX)] } else { vec![range] }, ..Default::default() };
        let honest = ph >= nphases;
        let k = if lockstep { TWO } else { weighted(&[3, 3, 2, 2, 2, 2, 2, 2, 0, 3]) };
        let name = NAMES[k];
        let limit = bound(k, n as u64);
        plan.budget = limit + 1;
        let mut lying = false;
        if !honest {
            let style = weighted(&[6, 3, 2, 1, 1]);
            if style == 0 || style == 4 {
                plan.panic_at = crash_point(match k {
                    0..=2 if n > 24 => n as u64 * (n as u64).ilog2() as u64 * 2,
                    HEAP => 2 * n as u64 + 1,
                    _ => n as u64 * n as u64 / 2 + 1,
                });
            }
            if style != 0 {
                lying = true;
                // answers may contradict each other for ever: stop at some point
                plan.budget = (50 * n as u64 + 2000).min(limit + 1);
            }
            match style {
                1 | 4 => plan.lie = [4, 40, 128, 256][choose(4)],
                2 => plan.none = [4, 40, 256][choose(3)],
                3 => plan.stuck = 1 + choose(3) as u32,
                _ => {}
            }
        } else if adapt {
            let toks: Vec<u32> = a.ids()[lo..hi].to_vec();
            let mut s = sim();
            for t in toks {
                s.toks[t as usize].key = GAS;
            }
            drop(s);
            plan.adapt = Some((0, u32::MAX));
            probe("adaptive adversary");
        }
        let before = a.ids();
        ev!("{} of {} elements at {}..{}: {}", name, n, lo, hi, if honest { "honest".into() } else { format!("panic at {}, lies {}/{}/{}", plan.panic_at, plan.lie, plan.none, plan.stuck) });
        plan.nest_at = nest(2 * n as u64);
        let panic_at = plan.panic_at;
        sim().cmp = plan;
        let r = attempt_any(|| sort(k, &mut a.slice_mut()[lo..hi], b.slice_mut().get_mut(if lockstep { lo..hi } else { 0..0 }).unwrap()));
        let p = elem::end_plan();
        ev!("{} -> {:?} after {} comparisons", name, r, p.calls);
        check_stop();
        a.check_guards(name);
        b.check_guards(name);
        check_stop();
        let after = a.ids();
        if sorted(&after) != all {
            flag(C7, "elements lost", format!("{} ({:?}) turned {:?} into {:?}", name, r, before, after));
        }
        if after[..lo] != before[..lo] || after[hi..] != before[hi..] {
            flag(C7, "outside the slice", format!("{} of {}..{} turned {:?} into {:?}", name, lo, hi, before, after));
        } else if sorted(&after[lo..hi]) != sorted(&before[lo..hi]) {
            flag(C7, "elements lost", format!("{} ({:?}) turned {:?} into {:?}", name, r, before, after));
        }
        check_stop();
        if lockstep && after.iter().zip(b.ids()).any(|(x, y)| partner.get(x) != Some(&y)) {
            flag(&["C11", "C07"], "pairs parted", format!("{} ({:?}): {:?} paired with {:?}", name, r, after, b.ids()));
        }
        let truthful = p.lies == 0;
        if truthful && STABLE.contains(&k) && !keeps_order(&before, &after) {
            flag(C8, "order of equal elements", format!("{} ({:?}) turned {:?} into {:?}", name, r, elem::keys(&before), after));
        }
        match &r {
            Ok(()) => {
                if panic_at != 0 && p.calls >= panic_at {
                    flag(C7, "panic swallowed", format!("{}: the comparison panicked but the sort returned", name));
                }
                if truthful {
                    let v = &after[lo..hi];
                    if k == HEAP && !is_heap(v) {
                        flag(C8, "not a heap", format!("{} left {:?}", name, elem::keys(v)));
                    } else if k != HEAP && !is_sorted(v) {
                        flag(C8, "not sorted", format!("{} left {:?}", name, elem::keys(v)));
                    }
                    if p.calls > limit {
                        flag(C8, "too much work", format!("{}: {} comparisons for {} elements", name, p.calls, n));
                    }
                }
            }
            Err(e) if e == "cmp_panic" => {
                probe("sort cut short");
                if panic_at == 0 || p.calls != panic_at {
                    flag(C7, "comparison after a panic", format!("{}: {} comparisons, panic at {}", name, p.calls, panic_at));
                }
            }
            Err(e) if e == "cmp_budget" => {
                if truthful && p.calls > limit {
                    flag(C8, "too much work", format!("{}: more than {} comparisons for {} elements", name, limit, n));
                }
                probe("sort stopped by the budget");
            }
            Err(e) => {
                if truthful {
                    flag(C8, "panic", format!("{}: {}", name, e));
                }
                probe("sort panics under contradictory answers");
            }
        }
        check_stop();
        state(&[k as u64, n as u64, honest as u64, after.iter().fold(p.calls, |h, x| h.wrapping_mul(31).wrapping_add(key_of(*x) as u64))]);
        if ph > 0 && honest {
            nontrivial();
        }
        let _ = lying;
        ph += 1;
        if honest {
            honest_tries += 1;
            done = honest_tries >= 2 || choose(3) > 0;
        }
    }
    drop(a);
    check_stop();
}

/// Zero-sized elements: they can be counted, and nothing else.
fn units() {
    let n = choose(80);
    UNITS.store(0, SeqCst);
    let mut v: Vec<Unit> = (0..n).map(|_| Unit::new()).collect();
    for _ in 0..1 + choose(3) {
        let k = [0, 1, 2, 3, 4, 5, 6, 7, 9][choose(9)];
        let mut plan = sim::CmpPlan { budget: 50 * n as u64 + 2000, ..Default::default() };
        match choose(4) {
            0 => plan.panic_at = crash_point((n * n / 2 + n + 2) as u64),
            1 => plan.lie = 128,
            2 => plan.stuck = 1 + choose(3) as u32,
            _ => {}
        }
        ev!("{} of {} zero-sized elements", NAMES[k], n);
        sim().cmp = plan;
        let f = |a: &Unit, b: &Unit| a < b;
        let r = attempt_any(|| match k {
            0 => quicksort_range(&mut v),
            1 => quicksort_prange(&mut v),
            2 => quicksort_bounds(&mut v),
            3 => insertion_sort_indexes(&mut v, f),
            4 => insertion_sort_ranges(&mut v, f),
            5 => insertion_sort_pointerindex(&mut v, f),
            6 => insertion_sort_prange_lower(&mut v, f),
            7 => insertion_sort_rust(&mut v, f),
            _ => heapify(&mut v),
        });
        let p = elem::end_plan();
        ev!("-> {:?}", r);
        if UNITS.load(SeqCst) != n as i64 || v.len() != n {
            flag(C7, "elements lost", format!("{}: {} of {} zero-sized elements", NAMES[k], UNITS.load(SeqCst), n));
        }
        match r {
            Err(e) if p.lies == 0 && e != "cmp_panic" => {
                flag(C8, "panic", format!("{} of {} zero-sized elements: {}", NAMES[k], n, e))
            }
            _ => {}
        }
        check_stop();
    }
    drop(v);
    if UNITS.load(SeqCst) != 0 {
        flag(C7, "drops", format!("{} zero-sized elements left", UNITS.load(SeqCst)));
    }
}

pub fn lockstep() {
    match choose(4) {
        3 => phases::<Word>(true),
        0 => phases::<Tok>(true),
        1 => phases::<Small>(true),
        _ => phases::<Big>(true),
    }
}

pub fn c07() {
    match weighted(&[3500, 3500, 2000, 1000, 1000, 1, 2500, 1000]) {
        6 => phases::<Word>(false),
        7 => phases::<Pair>(false),
        0 => phases::<Tok>(false),
        1 => phases::<Small>(false),
        2 => phases::<Big>(false),
        3 => lockstep(),
        4 => units(),
        _ => huge(),
    }
}
pub fn c08() {
    c07()
}
#[allow(unused)]
fn _ids<E: Elem>(v: &[E]) -> Vec<u32> {
    ids(v)
}

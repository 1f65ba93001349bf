//! C09: the two buffer-swapping merges.

use super::sorts::shape;
use crate::elem::{self, key_of, sorted, Big, Elem, Pair, Small, Tok, Unit, Word, UNITS};
use crate::ev;
use crate::sim::{self, attempt_any, check_stop, choose, crash_point, flag, mark, nontrivial, probe, sim, state, weighted};
use crate::store::Arena;
use indexing::algorithms::*;
use std::sync::atomic::Ordering::SeqCst;

const C9: &[&str] = &["C09"];
const NAMES: [&str; 2] = ["merge_internal_indices", "merge_internal_ranges"];

/// Is `out` an interleaving of `a` and `b` that keeps the order within each?
fn interleaves(out: &[u32], a: &[u32], b: &[u32]) -> bool {
    let left: std::collections::HashSet<u32> = a.iter().copied().collect();
    let l: Vec<u32> = out.iter().copied().filter(|x| left.contains(x)).collect();
    let r: Vec<u32> = out.iter().copied().filter(|x| !left.contains(x)).collect();
    l == a && r == b
}
fn sorted_run(v: &[u32]) -> bool {
    v.windows(2).all(|w| key_of(w[0]) <= key_of(w[1]))
}
fn stable(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (mut i, mut j, mut o) = (0, 0, vec![]);
    while i < a.len() || j < b.len() {
        if i < a.len() && (j == b.len() || key_of(a[i]) <= key_of(b[j])) {
            o.push(a[i]);
            i += 1
        } else {
            o.push(b[j]);
            j += 1
        }
    }
    o
}

fn merges<E: Elem>() {
    let n = 1 + match weighted(&[90, 120, 60, 8]) {
        0 => choose(6),
        1 => choose(24),
        2 => choose(100),
        _ => 100 + choose(1200),
    };
    let mut ks = shape(n);
    let mut left = match choose(6) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(1),
        3 => 1,
        _ => choose(n + 1),
    };
    if choose(3) > 0 {
        ks[..left].sort();
        ks[left..].sort();
    }
    let spare = choose(4);
    let m = if choose(8) == 0 { choose(left + 1) } else { left + spare };
    let mut a: Arena<E> = Arena::new(&ks);
    // sometimes nobody may as much as read the buffer beyond the left run
    let hide = m > left && choose(3) == 0;
    let mut b: Arena<E> = match hide {
        true => Arena::walled(&shape(left)),
        false => Arena::new(&shape(m)),
    };
    let hide = hide && b.is_walled();
    let held = b.len();
    let m = if hide { m } else { held };
    if hide {
        probe("buffer is inaccessible beyond the left run");
    }
    let rounds = 1 + choose(3);
    for round in 0..rounds {
        mark();
        let k = choose(2);
        let name = NAMES[k];
        let ask = match choose(10) {
            0 => n + 1 + choose(3),
            1 => usize::MAX,
            2 if !hide => m + 1,
            _ => left,
        };
        let mut plan = sim::CmpPlan { budget: 1 + (n as u64 + 8) * (n as u64 + 8), ..Default::default() };
        let range = |v: Vec<u32>| (v.iter().min().copied().unwrap_or(0), v.iter().max().map_or(0, |x| x + 1));
        plan.ids = vec![range(a.ids()), range(b.ids())];
        let style = weighted(&[4, 4, 3, 1, 1]);
        if style == 1 || style == 4 {
            plan.panic_at = crash_point(n as u64);
        }
        match style {
            2 | 4 => plan.lie = [8, 64, 256][choose(3)],
            3 => match choose(2) {
                0 => plan.none = 64,
                _ => plan.stuck = 1 + choose(3) as u32,
            },
            _ => {}
        }
        let (da, db) = (a.ids(), b.ids());
        ev!("{}: data {}, left {}, buffer {}; panic at {}, lies {}/{}/{}", name, n, ask, m, plan.panic_at, plan.lie, plan.none, plan.stuck);
        plan.nest_at = crate::w::sorts::nest(n as u64);
        let panic_at = plan.panic_at;
        sim().cmp = plan;
        let r = attempt_any(|| {
            let (x, y) = (a.slice_mut(), b.slice_mut());
            let y = unsafe { std::slice::from_raw_parts_mut(y.as_mut_ptr(), m) };
            match k {
                0 => merge_internal_indices(x, ask, y),
                _ => merge_internal_ranges(x, ask, y),
            }
        });
        let p = elem::end_plan();
        ev!("-> {:?} after {} comparisons", r.as_ref().map(|x| x.is_ok()), p.calls);
        check_stop();
        a.check_guards(name);
        b.check_guards(name);
        check_stop();
        let (ea, eb) = (a.ids(), b.ids());
        let state_of = || format!("data {:?} buffer {:?} left {}: {:?} gave data {:?} buffer {:?}", da, db, ask, r.as_ref().map(|x| x.is_ok()), ea, eb);
        let both = |x: &[u32], y: &[u32]| sorted(&[x, y].concat());
        if both(&da, &db) != both(&ea, &eb) {
            flag(C9, "elements lost", format!("{}: {}", name, state_of()));
        }
        let fits = ask <= n && ask <= m;
        if fits && db[ask..] != eb[ask..] {
            flag(C9, "spare buffer touched", format!("{}: {}", name, state_of()));
        }
        check_stop();
        match &r {
            Ok(Err(_)) => {
                if fits {
                    flag(C9, "refused", format!("{}: {}", name, state_of()));
                }
                if (&da, &db) != (&ea, &eb) || p.calls > 0 {
                    flag(C9, "changed after refusal", format!("{}: {}", name, state_of()));
                }
                probe("merge refused");
                nontrivial();
            }
            Ok(Ok(())) => {
                if !fits {
                    flag(C9, "not refused", format!("{}: {}", name, state_of()));
                    check_stop();
                }
                if panic_at != 0 && p.calls >= panic_at {
                    flag(C9, "panic swallowed", format!("{}: {}", name, state_of()));
                }
                if sorted(&db) != sorted(&eb) {
                    flag(C9, "data left in the buffer", format!("{}: {}", name, state_of()));
                } else if !interleaves(&ea, &da[..ask], &da[ask..]) {
                    flag(C9, "order within a run", format!("{}: {}", name, state_of()));
                } else if p.lies == 0 && sorted_run(&da[..ask]) && sorted_run(&da[ask..]) && ea != stable(&da[..ask], &da[ask..]) {
                    flag(C9, "not the stable merge", format!("{}: keys {:?}; {}", name, elem::keys(&da), state_of()));
                }
            }
            Err(e) if e == "cmp_panic" => {
                probe("merge cut short");
                if p.calls != panic_at {
                    flag(C9, "comparison after a panic", format!("{}: {} comparisons, panic at {}", name, p.calls, panic_at));
                }
            }
            Err(e) if e == "cmp_budget" => flag(C9, "does not end", format!("{}: {}", name, state_of())),
            Err(e) => {
                if p.lies == 0 {
                    flag(C9, "panic", format!("{}: {}: {}", name, e, state_of()));
                }
            }
        }
        check_stop();
        if round > 0 {
            nontrivial();
        }
        state(&[k as u64, n as u64, ask as u64, m as u64, ea.iter().fold(p.calls, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64))]);
        // the next round works on what this one left behind, split anywhere
        if choose(2) == 0 {
            left = choose(n.min(held) + 1);
        }
    }
    drop(a);
    drop(b);
    check_stop();
}

fn units() {
    let n = 1 + choose(40);
    let left = choose(n + 1);
    let m = left + choose(3);
    UNITS.store(0, SeqCst);
    let mut a: Vec<Unit> = (0..n).map(|_| Unit::new()).collect();
    let mut b: Vec<Unit> = (0..m).map(|_| Unit::new()).collect();
    for _ in 0..2 {
        let mut plan = sim::CmpPlan { budget: 4000, ..Default::default() };
        match choose(3) {
            0 => plan.panic_at = crash_point(n as u64),
            1 => plan.lie = 128,
            _ => plan.stuck = 1 + choose(3) as u32,
        }
        let k = choose(2);
        ev!("{}: {} zero-sized elements, left {}", NAMES[k], n, left);
        sim().cmp = plan;
        let r = attempt_any(|| match k {
            0 => merge_internal_indices(&mut a, left, &mut b).is_ok(),
            _ => merge_internal_ranges(&mut a, left, &mut b).is_ok(),
        });
        elem::end_plan();
        if UNITS.load(SeqCst) != (n + m) as i64 || r == Ok(false) {
            flag(C9, "zero-sized elements", format!("{} {:?}: {} of {}", NAMES[k], r, UNITS.load(SeqCst), n + m));
        }
        if r.as_ref().is_err_and(|e| e == "cmp_budget") {
            flag(C9, "does not end", format!("{} of {} zero-sized elements", NAMES[k], n));
        }
        check_stop();
    }
    drop((a, b));
    if UNITS.load(SeqCst) != 0 {
        flag(C9, "zero-sized elements", format!("{} left", UNITS.load(SeqCst)));
    }
}

pub fn c09() {
    match weighted(&[5, 5, 4, 1, 3, 1]) {
        4 => merges::<Word>(),
        5 => merges::<Pair>(),
        0 => merges::<Tok>(),
        1 => merges::<Small>(),
        2 => merges::<Big>(),
        _ => units(),
    }
}

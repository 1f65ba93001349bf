//! A comparison (or other callback) that itself uses the library on data of its own: neither the
//! nested use nor the one it interrupts may notice.

use crate::ev;
use crate::sim::{choose, fault, flag, pick, seq, sim};
use indexing::algorithms::*;
use indexing::{pointer, scope};

fn wrong(prop: &'static str, what: &str, text: String) {
    flag(&[prop], "nested use", format!("{} used from within a comparison: {}", what, text));
}

/// Runs one library routine on plain numbers and judges it.
pub fn nested() {
    // mostly the same kind of routine as the one that is interrupted
    let prop = sim().prop;
    let k = match prop {
        "C07" | "C08" => pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 13]),
        "C09" => pick(&[9, 10, 9, 10, 9, 10, 0, 7]),
        "C10" => pick(&[11, 11, 11, 0, 12]),
        "C14" => pick(&[14, 14, 14, 13, 0]),
        _ => choose(16),
    };
    let n = [3, 12, 40][choose(3)];
    fault("nested_use");
    ev!("nested use {} on {} numbers", k, n);
    match choose(3) {
        0 => on::<u64>(k, &seq(n, 1 << 20).into_iter().map(|x| x as u64).collect::<Vec<_>>()),
        1 => on::<u8>(k, &seq(n, 256).into_iter().map(|x| x as u8).collect::<Vec<_>>()),
        _ => on::<String>(k, &seq(n, 1 << 20).into_iter().map(|x| x.to_string()).collect::<Vec<_>>()),
    }
}

fn on<T: Ord + Clone + std::fmt::Debug>(k: usize, v: &[T]) {
    let n = v.len();
    let mut w = v.to_vec();
    let mut exact = v.to_vec();
    exact.sort();
    let lt = |a: &T, b: &T| a < b;
    match k {
        0..=7 => {
            match k {
                0 => quicksort_range(&mut w),
                1 => quicksort_prange(&mut w),
                2 => quicksort_bounds(&mut w),
                3 => insertion_sort_indexes(&mut w, lt),
                4 => insertion_sort_ranges(&mut w, lt),
                5 => insertion_sort_pointerindex(&mut w, lt),
                6 => insertion_sort_prange_lower(&mut w, lt),
                _ => insertion_sort_rust(&mut w, lt),
            }
            if w != exact {
                wrong("C08", crate::w::sorts::NAMES[k], format!("{:?} became {:?}", v, w));
            }
        }
        8 => {
            heapify(&mut w);
            let heap = (1..n).all(|i| w[(i - 1) / 2] <= w[i]);
            w.sort();
            if !heap || w != exact {
                wrong("C08", "heapify", format!("{:?}", v));
            }
        }
        9 | 10 => {
            let m = n / 3;
            w[..m].sort();
            w[m..].sort();
            let mut buf = v[..m].to_vec();
            let r = match k {
                9 => merge_internal_indices(&mut w, m, &mut buf),
                _ => merge_internal_ranges(&mut w, m, &mut buf),
            };
            if r.is_err() || w != exact {
                wrong("C09", "merge_internal", format!("{:?} became {:?}", v, w));
            }
        }
        11 => {
            let x = &v[n / 2];
            let lower = exact.iter().filter(|y| *y < x).count();
            if binary_search(&exact, x).map(|i| exact[i] == *x) != Ok(true) || lower_bound(&exact, x) != lower || lower_bound_prange(&exact, x) != lower || lower_bound_raw_ptr(&exact, x) != lower {
                wrong("C10", "searches", format!("{:?} in {:?}", x, exact));
            }
        }
        12 => {
            let got = scope(&w[..], |c| {
                let (mut ids, mut rest) = (vec![], c.range());
                while let Ok(r) = rest.nonempty() {
                    let i = r.first();
                    ids.push(i.integer());
                    rest = r.tail();
                }
                ids
            });
            if got != (0..n).collect::<Vec<_>>() {
                wrong("C04", "walking a range", format!("{:?}", got));
            }
        }
        13 => {
            scope(&mut w[..], |mut c| {
                if let Ok(r) = c.range().nonempty() {
                    c.rotate1_up(r);
                }
            });
            let mut x = v.to_vec();
            x.rotate_right(1);
            if w != x {
                wrong("C05", "rotate1_up", format!("{:?} became {:?}", v, w));
            }
        }
        14 => {
            let mut got = vec![];
            scope(v, |c| scope(&exact[..], |d| pointer::zip(c.pointer_range(), &c, d.pointer_range(), &d, |a, b| got.push((a.clone(), b.clone())))));
            if got != v.iter().cloned().zip(exact.iter().cloned()).collect::<Vec<_>>() {
                wrong("C14", "zip", format!("{:?}", got));
            }
        }
        _ => {
            let got: Vec<usize> = scope(v, |c| c.range().subdivide(3).map(|r| r.len()).collect());
            if got.iter().sum::<usize>() != n {
                wrong("C04", "subdivide", format!("{:?}", got));
            }
        }
    }
}

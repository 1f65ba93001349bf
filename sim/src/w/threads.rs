//! C12: disjoint parts of one container in the hands of different threads, and one container read
//! by many. Every thread's program is drawn beforehand; the part it leaves and the answers it gets
//! are compared with the same program run alone on a copy.

use super::sorts;
use super::sorts::nest;
use crate::elem::{key_of, sorted, Big, Elem, Small, Tok, Word, thread_step, TL};
use crate::ev;
use crate::sched::{self, par, yield_point, Task};
use crate::sim::{self, attempt, chance, check_stop, choose, fault, flag, mark, nontrivial, probe, sim, state, weighted};
use crate::store::{Arena, SimStore};
use crate::trace::{self, lib};
use indexing::algorithms::*;
use indexing::proof::Provable;
use indexing::{scope, Container, Index, Range};
use std::cmp::Ordering;

const C12: &[&str] = &["C12"];

struct Op {
    k: usize,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    subs: Vec<Prog>,
}
pub struct Prog {
    ops: Vec<Op>,
    /// the thread's own comparison or callback at which it panics (0 = never)
    panic_at: u64,
    stall: usize,
}

const SPLIT: usize = 12;

/// The kinds of operations the threads of one run use: all, or one or two that meet often.
fn draw_kinds() -> Vec<usize> {
    match choose(3) {
        2 => (0..1 + choose(2)).map(|_| [3, 2, 13, 14, 4, 10, 7, 9, 0, 1, 5, 6, 8, 11][choose(14)]).collect(),
        _ => vec![],
    }
}

fn draw_prog(kinds: &[usize], depth: usize, n: usize) -> Prog {
    let mut ops = Vec::new();
    for _ in 0..1 + choose(if kinds.is_empty() { 4 } else { 8 }) {
        let k = if !kinds.is_empty() { kinds[choose(kinds.len())] } else { weighted(&[5, 1, 2, 2, 2, 2, 2, 2, 3, 2, 1, 2, if depth > 0 { 3 } else { 0 }, 3, 2]) };
        let mut op = Op { k, a: choose(64), b: choose(64), c: choose(64), d: choose(64), subs: vec![] };
        if k == SPLIT {
            op.subs = (0..2).map(|_| draw_prog(kinds, depth - 1, n / 2)).collect();
        }
        ops.push(op);
    }
    let panic_at = if choose(4) == 3 { sim::crash_point(1 + (n * n / 3) as u64) } else { 0 };
    let stall = if choose(5) == 4 { 1 + choose(40) } else { 0 };
    Prog { ops, panic_at, stall }
}

/// A callback of the library runs: the thread may be pre-empted here, or die.
fn callback() {
    let _q = crate::trace::quiet();
    if sched::active() {
        yield_point();
    }
    thread_step();
}

fn two(op: &Op, n: usize) -> (usize, usize) {
    let (x, y) = (op.a % (n + 1), op.b % (n + 1));
    (x.min(y), x.max(y))
}

/// Runs the program on its part; what it observes goes to `log`.
fn run_prog<'id, E: Elem>(c: &mut Container<'id, &mut [E]>, p: &Prog, log: &mut Vec<u64>, together: bool) {
    for op in &p.ops {
        if together {
            yield_point();
        }
        step(c, op, log, together);
    }
}

fn res(r: Result<usize, usize>) -> u64 {
    match r {
        Ok(x) => 1000 + x as u64,
        Err(x) => 2000 + x as u64,
    }
}

fn step<'id, E: Elem>(c: &mut Container<'id, &mut [E]>, op: &Op, log: &mut Vec<u64>, together: bool) {
    let n = c.len();
    let (lo, hi) = two(op, n);
    let r = match lib(|| c.vet_range(lo..hi)) {
        Ok(r) => indexing::proof::Provable::no_proof(r),
        Err(_) => {
            flag(C12, "part too short", format!("range {}..{} of a part of {} was refused", lo, hi, n));
            return;
        }
    };
    log.push(7_000_000 + op.k as u64);
    match op.k {
        0 => {
            let k = [0, 1, 2, 3, 4, 5, 6, 7][op.c % 8];
            match op.d % 3 {
                0 => lib(|| sorts::sort(k, &mut c[r], &mut [])),
                _ => lib(|| sorts::sort(k, &mut c[..], &mut [])),
            }
        }
        1 => lib(|| sorts::sort(9, &mut c[r], &mut [])),
        2 => {
            if let (Ok(i), Ok(j)) = (lib(|| c.vet(op.a)), lib(|| c.vet(op.b))) {
                if op.c % 2 == 0 {
                    lib(|| c.swap(i, j))
                } else if std::mem::size_of::<E>() > 0 {
                    let s = lib(|| c.pointer_range());
                    let (mut pi, mut pj) = (s.into_iter(), s.into_iter());
                    if let (Some(x), Some(y)) = lib(|| (pi.nth(op.a), pj.nth(op.b))) {
                        lib(|| c.swap_ptr(x, y))
                    }
                }
            }
        }
        3 => {
            if op.c % 2 == 0 {
                lib(|| c.rotate1_up(r))
            } else {
                lib(|| c.rotate1_down(r))
            }
        }
        4 => {
            if let Ok(s) = lib(|| c.pointer_slice().nonempty()) {
                log.push(s.len() as u64);
            }
            if let Ok(s) = lib(|| c.pointer_range().nonempty()) {
                lib(|| c.rotate1_prange(s));
            }
        }
        5 => {
            let k = (op.c % 8) as i32;
            let f = |e: &E| {
                callback();
                key_of(e.id()) % 8 != k
            };
            if let Ok(i) = lib(|| c.vet(op.a)) {
                let s = match op.d % 2 {
                    0 => lib(|| c.scan_from(i, f)),
                    _ => lib(|| c.scan_from_rev(i, f)),
                };
                log.push(s.start() as u64);
                log.push(s.end() as u64);
            } else {
                let (x, y) = lib(|| c.scan_range(r, f));
                log.extend([x.start(), x.end(), y.start(), y.end()].map(|x| x as u64));
            }
        }
        6 => {
            let k = (op.c % 8) as i32;
            let f = |e: &E| {
                callback();
                key_of(e.id()) % 8 != k
            };
            let pr = c.pointer_range();
            match op.d % 3 {
                0 => {
                    let (x, y) = lib(|| c.scan_pointer_range(pr, f));
                    log.extend([x.len() as u64, y.len() as u64]);
                }
                1 => {
                    let (x, y) = lib(|| c.scan_pointer_range_rev(pr, f));
                    log.extend([x.len() as u64, y.len() as u64]);
                }
                _ => {
                    if let Ok(ne) = pr.nonempty() {
                        log.push(lib(|| c.scan_tail_(ne.first(), f).len()) as u64)
                    }
                }
            }
        }
        7 => {
            // two mutable parts in one thread
            let (x, y) = two(&Op { k: 0, a: op.c, b: op.d, c: 0, d: 0, subs: vec![] }, n);
            if let (Ok(r), Ok(s)) = (lib(|| c.vet_range(lo..hi)), lib(|| c.vet_range(x..y))) {
                match lib(|| c.index_twice(r, s)) {
                    Err(_) => log.push(u64::MAX),
                    Ok((a, b)) => {
                        log.extend([a.len() as u64, b.len() as u64]);
                        for (u, v) in a.iter_mut().zip(b.iter_mut()) {
                            callback();
                            std::mem::swap(u, v);
                        }
                    }
                }
            }
        }
        8 => {
            // searches
            let k = (op.c * 3) as i32 % 40;
            let by = |e: &E| {
                callback();
                key_of(e.id()).cmp(&k)
            };
            let lt = |e: &E| by(e) == Ordering::Less;
            match op.d % 6 {
                0 => log.push(res(lib(|| binary_search_by(&c[r], by)))),
                1 => log.push(res(lib(|| binary_search_by_prange(&c[r], by)))),
                2 => log.push(res(lib(|| binary_search_by_pslice(&c[r], by)))),
                3 => log.push(lib(|| lower_bound_pslice(&c[r], |e| lt(e))) as u64),
                x => {
                    let needle = E::new(k);
                    TL.with(|t| t.borrow_mut().admit(needle.id()));
                    if x == 4 {
                        log.push(res(lib(|| binary_search(&c[..], &needle))));
                        log.push(lib(|| lower_bound_prange(&c[..], &needle)) as u64);
                    } else {
                        log.push(lib(|| lower_bound(&c[..], &needle)) as u64);
                        log.push(lib(|| lower_bound_raw_ptr(&c[..], &needle)) as u64);
                    }
                }
            }
        }
        9 => {
            let (x, y) = two(&Op { k: 0, a: op.c, b: op.d, c: 0, d: 0, subs: vec![] }, n);
            if let Ok(s) = lib(|| c.vet_range(x..y)) {
                let mut pairs = 0;
                lib(|| {
                    c.zip_mut_raw(r, s, |p, q| {
                        callback();
                        pairs += 1;
                        unsafe { std::ptr::swap(p, q) }
                    })
                });
                log.push(pairs);
            }
        }
        10 => {
            let mut it = lib(|| r.subdivide(1 + op.c % 5));
            while let Some(part) = lib(|| it.next()) {
                callback();
                log.push(part.start() as u64);
                for i in part {
                    log.push(key_of(lib(|| c[i].id())) as u64);
                }
            }
        }
        11 => {
            // merge through a buffer of the thread's own
            if n == 0 {
                return;
            }
            let left = op.a % (n + 1);
            c[..][..left].sort();
            c[..][left..].sort();
            let mut buf: Arena<E> = Arena::new(&vec![3; left]);
            let own = buf.ids();
            TL.with(|t| own.iter().for_each(|x| t.borrow_mut().admit(*x)));
            let r = attempt(|| match op.c % 2 {
                0 => lib(|| merge_internal_indices(&mut c[..], left, buf.slice_mut())),
                _ => lib(|| merge_internal_ranges(&mut c[..], left, buf.slice_mut())),
            });
            buf.check_guards("merge buffer");
            // after a crash some elements may sit in the buffer: bring them home
            let v = &mut c[..];
            let mut at = 0;
            for e in buf.slice_mut() {
                if !own.contains(&e.id()) {
                    while at < v.len() && !own.contains(&v[at].id()) {
                        at += 1;
                    }
                    if at < v.len() {
                        std::mem::swap(e, &mut v[at]);
                    }
                }
            }
            if let Err(k) = r {
                std::panic::resume_unwind(Box::new(sim::SimFault(k)))
            }
        }
        13 => log.extend(lib(|| particles(c, r, op)).iter().map(|x| *x as u64)),
        14 => log.extend(lib(|| pointers(c, op)).iter().map(|x| *x as u64)),
        _ => {
            let fates = divide(c, op.a, op.b, op.c, op.d, &op.subs, log, together);
            log.extend(fates.iter().map(|f| f.map_or(0, |k| k.len() as u64)));
        }
    }
}

/// Vetting, cursor moves and range operations on the part; no callback runs.
fn particles<'id, E: Elem>(c: &Container<'id, &mut [E]>, r: Range<'id>, op: &Op) -> [usize; 40] {
    let mut o = [0; 40];
    let mut k = 0;
    let mut put = |x: usize| {
        o[k] = x;
        k += 1;
    };
    macro_rules! range {
        ($r:expr) => {{
            let r = $r;
            put(r.start());
            put(r.end());
        }};
    }
    put(c.vet(op.b).map_or(usize::MAX, |i| i.integer()));
    put(c.vet_range(op.c.min(op.d)..op.c.max(op.d)).map_or(usize::MAX, |r| r.len()));
    put(r.contains(op.d).map_or(usize::MAX, |i| i.integer()));
    let (a, b) = r.split_in_half();
    range!(a);
    range!(b);
    let (x, y, inside) = r.split_at(op.b);
    range!(x);
    range!(y);
    put(inside as usize);
    put(a.join(b).map_or(usize::MAX, |j| j.len()));
    range!(x.join_cover(b));
    let (f, g) = r.frontiers();
    range!(f);
    range!(g);
    if let Ok(mut i) = c.vet(op.a) {
        put(c.forward_by(&mut i, op.c) as usize);
        put(i.integer());
        put(c.backward(&mut i) as usize);
        put(r.forward_by(&mut i, op.d % 4) as usize);
        put(i.integer());
        let (u, v) = c.split_after(i);
        range!(u);
        range!(v);
        put(key_of(c[i].id()) as usize);
    }
    if let Ok(mut s) = r.nonempty() {
        put(s.advance_by(op.b % 8) as usize);
        put(s.advance_back() as usize);
        range!(s);
        put(s.upper_middle().integer());
    }
    let mut it = r.into_iter();
    if let (Some(x), Some(y)) = (it.next(), it.next_back()) {
        put((x.integer() << 32) + y.integer());
    }
    o
}

/// Pointer ranges and pointer slices over the part; no callback runs.
fn pointers<'id, E: Elem>(c: &Container<'id, &mut [E]>, op: &Op) -> [usize; 24] {
    let mut o = [0; 24];
    let mut k = 0;
    let mut put = |x: usize| {
        o[k] = x;
        k += 1;
    };
    let at = |p: *const E| (p as usize).wrapping_sub(c[..].as_ptr() as usize);
    let p = c.pointer_range();
    put(p.len());
    let (a, b) = p.split_in_half();
    put(a.len());
    put(at(b.first().ptr()));
    if let Ok(mut s) = b.nonempty() {
        put(at(s.upper_middle().ptr()));
        put(s.advance() as usize);
        put(at(s.last().ptr()));
        put(s.advance_back() as usize);
        put(s.len());
        put(key_of(c[s.first()].id()) as usize);
    }
    let q = c.pointer_slice();
    let (a, b) = q.split_in_half();
    put(a.len());
    put(at(b.first().ptr()));
    if let Ok(mut s) = a.nonempty() {
        put(s.advance_back() as usize);
        put(at(s.upper_middle().ptr()));
        put(key_of(c[s.last()].id()) as usize);
    }
    if let Some(x) = p.into_iter().nth(op.a) {
        put(c.distance_to(x));
        let (l, r) = c.split_at_pointer(x);
        put(l.len());
        put(r.len());
        put(c[l].len());
    }
    if let Some(x) = p.into_iter().rev().nth(op.b) {
        put(at(x.ptr()));
    }
    o
}

/// Runs one program per part: on threads of their own, or one after the other.
fn run_parts<'a, E: Elem>(parts: Vec<(&'a mut [E], &'a Prog)>, log: &mut Vec<u64>, together: bool) -> Vec<Option<&'static str>> {
    run_tasks(
        parts
            .into_iter()
            .map(|(v, p)| {
                let allowed: Vec<u32> = v.iter().map(|e| e.id()).collect();
                let f: Box<dyn FnOnce(&mut Vec<u64>) + Send + 'a> = Box::new(move |l| {
                    if together {
                        trace::own(v, false)
                    }
                    scope(v, |mut c| run_prog(&mut c, p, l, together))
                });
                (allowed, p, f)
            })
            .collect(),
        log,
        together,
    )
}

fn run_tasks<'a>(parts: Vec<(Vec<u32>, &'a Prog, Box<dyn FnOnce(&mut Vec<u64>) + Send + 'a>)>, log: &mut Vec<u64>, together: bool) -> Vec<Option<&'static str>> {
    let n = parts.len();
    let mut logs: Vec<Vec<u64>> = vec![Vec::new(); n];
    let fates;
    if together {
        for (i, p) in parts.iter().enumerate() {
            if p.1.stall > 0 {
                sched::stall_next(i, p.1.stall);
            }
        }
        let tasks: Vec<Task> = parts
            .into_iter()
            .zip(logs.iter_mut())
            .map(|((allowed, p, f), l)| {
                let at = p.panic_at;
                let t: Task = Box::new(move || {
                    TL.with(|t| t.borrow_mut().start(at, allowed));
                    f(l);
                });
                t
            })
            .collect();
        fates = par(tasks);
        if fates.iter().any(|f| f.is_some()) && fates.iter().any(|f| f.is_none()) {
            probe("a thread outlived another's panic");
        }
    } else {
        fates = parts
            .into_iter()
            .zip(logs.iter_mut())
            .map(|((allowed, p, f), l)| {
                let saved = TL.with(|t| t.take());
                TL.with(|t| t.borrow_mut().start(p.panic_at, allowed));
                let r = attempt(|| f(l)).err();
                TL.with(|t| *t.borrow_mut() = saved);
                r
            })
            .collect();
    }
    for l in logs {
        log.extend(l);
    }
    fates
}

fn check_parts<E>(what: &str, base: *const E, got: &[(usize, usize)], want: &[(usize, usize)], len: usize) {
    let b = base as usize;
    let size = std::mem::size_of::<E>();
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        if w.0 == w.1 && g.1 == 0 {
            continue;
        }
        if *g != (b + w.0 * size, w.1 - w.0) {
            flag(
                C12,
                "not the part requested",
                format!("{} of {} elements: part {} should be {}..{}, starts at byte {} and has {} elements", what, len, k, w.0, w.1, g.0.wrapping_sub(b) as isize, g.1),
            );
        }
    }
    for i in 0..got.len() {
        for j in 0..i {
            let (x, y) = (got[i], got[j]);
            if x.1 > 0 && y.1 > 0 && x.0 < y.0 + y.1 * size && y.0 < x.0 + x.1 * size {
                flag(C12, "parts overlap", format!("{} of {} elements: parts {} and {} overlap", what, len, j, i));
            }
        }
    }
    check_stop();
}

fn span<E>(v: &[E]) -> (usize, usize) {
    (v.as_ptr() as usize, v.len())
}

/// Divides the container in one of the ways it offers and runs the programs on the parts.
fn divide<'id, E: Elem>(c: &mut Container<'id, &mut [E]>, a: usize, b: usize, x: usize, way: usize, progs: &[Prog], log: &mut Vec<u64>, together: bool) -> Vec<Option<&'static str>> {
    let n = c.len();
    let base = c[..].as_ptr();
    let cuts = {
        let mut v = [a % (n + 1), b % (n + 1), x % (n + 1)];
        v.sort();
        v
    };
    match way % 3 {
        0 => {
            // two ranges with or without a gap, the first starting where it pleases
            let (s0, e0, s1, e1) = match (way / 3) % 4 {
                0 => (0, cuts[1], cuts[1], n),
                1 => (cuts[0], cuts[1], cuts[1], cuts[2]),
                2 => (0, cuts[0], cuts[1], cuts[2]),
                _ => (cuts[0], cuts[1], cuts[2], n),
            };
            let (r, s) = (lib(|| c.vet_range(s0..e0)), lib(|| c.vet_range(s1..e1)));
            let (Ok(r), Ok(s)) = (r, s) else {
                flag(C12, "range refused", format!("{}..{} and {}..{} of {}", s0, e0, s1, e1, n));
                return vec![];
            };
            // the wrong way round it must be refused, unless that is not wrong
            if e1 > s0 && c.index_twice(s, r).is_ok() {
                flag(C12, "parts overlap", format!("index_twice granted {}..{} and {}..{}", s1, e1, s0, e0));
                check_stop();
            }
            if e0 > s0 && c.index_twice(r, r).is_ok() {
                flag(C12, "parts overlap", format!("index_twice granted {}..{} twice", s0, e0));
                check_stop();
            }
            let ne = (r.nonempty(), s.nonempty());
            let parts = match ((way / 3) % 2, ne) {
                (1, (Ok(r), Ok(s))) => c.index_twice(r, s),
                _ => c.index_twice(r, s),
            };
            match parts {
                Err(_) => {
                    flag(C12, "not the part requested", format!("index_twice refused {}..{} and {}..{} of {}", s0, e0, s1, e1, n));
                    vec![]
                }
                Ok((u, v)) => {
                    check_parts("index_twice", base, &[span(u), span(v)], &[(s0, e0), (s1, e1)], n);
                    run_parts(vec![(u, &progs[0]), (v, &progs[1])], log, together)
                }
            }
        }
        1 => {
            // at a pointer
            let mid = cuts[1];
            let pr = c.pointer_range();
            let at = if mid == n { pr.past_the_end() } else { pr.into_iter().nth(mid).map(|p| p.no_proof()).unwrap_or(pr.past_the_end()) };
            c.split_container_at_pointer(at, |mut c1, r1, mut c2, r2| {
                let spans = [span(&c1[..]), span(&c2[..])];
                check_parts("split_container_at_pointer", base, &spans, &[(0, mid), (mid, n)], n);
                let rs = [(r1.first().ptr() as usize, r1.len()), (r2.first().ptr() as usize, r2.len())];
                if (rs[0].1, rs[1].1) != (mid, n - mid) || rs[0] != (spans[0].0, mid) || rs[1] != (spans[1].0, n - mid) {
                    flag(C12, "not the part requested", format!("split_container_at_pointer at {} of {}: ranges of {} and {} elements", mid, n, rs[0].1, rs[1].1));
                    check_stop();
                }
                let tasks: Vec<(Vec<u32>, &Prog, Box<dyn FnOnce(&mut Vec<u64>) + Send + '_>)> = vec![
                    (c1[..].iter().map(|e| e.id()).collect(), &progs[0], Box::new(|l| {
                        if together {
                            trace::own(&c1[..], false)
                        }
                        run_prog(&mut c1, &progs[0], l, together)
                    })),
                    (c2[..].iter().map(|e| e.id()).collect(), &progs[1], Box::new(|l| {
                        if together {
                            trace::own(&c2[..], false)
                        }
                        run_prog(&mut c2, &progs[1], l, together)
                    })),
                ];
                run_tasks(tasks, log, together)
            })
        }
        _ => {
            // three parts: a trusted range cut in two, then the second part again
            let (Ok(r), Ok(s)) = (lib(|| c.vet_range(0..cuts[0])), lib(|| c.vet_range(cuts[0]..n))) else { return vec![] };
            match c.index_twice(r, s) {
                Err(_) => {
                    flag(C12, "not the part requested", format!("index_twice refused 0..{} and the rest of {}", cuts[0], n));
                    vec![]
                }
                Ok((u, v)) => {
                    check_parts("index_twice", base, &[span(u), span(v)], &[(0, cuts[0]), (cuts[0], n)], n);
                    scope(v, |mut d| {
                        let m = d.len();
                        let mid = cuts[1] - cuts[0];
                        let (Ok(r), Ok(s)) = (lib(|| d.vet_range(0..mid)), lib(|| d.vet_range(mid..m))) else { return vec![] };
                        match d.index_twice(r, s) {
                            Err(_) => {
                                flag(C12, "not the part requested", format!("index_twice refused 0..{} and the rest of {}", mid, m));
                                vec![]
                            }
                            Ok((v, w)) => {
                                check_parts("index_twice", base, &[span(u), span(v), span(w)], &[(0, cuts[0]), (cuts[0], cuts[1]), (cuts[1], n)], n);
                                let third = progs.len() - 1;
                                run_parts(vec![(u, &progs[0]), (v, &progs[1]), (w, &progs[third])], log, together)
                            }
                        }
                    })
                }
            }
        }
    }
}

fn keys(n: usize) -> Vec<i32> {
    match choose(4) {
        0 => sorts::shape(n),
        1 => (0..n).map(|_| choose(40) as i32).collect(),
        2 => {
            let mut v: Vec<i32> = (0..n).map(|_| choose(40) as i32).collect();
            v.sort();
            v
        }
        _ => (0..n).map(|_| choose(6) as i32).collect(),
    }
}

fn parts<E: Elem>() {
    let n = match weighted(&[2, 5, 2]) {
        0 => choose(4),
        1 => 2 + choose(22),
        _ => 20 + choose(50),
    };
    let ks = keys(n);
    let progs: Vec<Prog> = {
        let kinds = draw_kinds();
        (0..3).map(|_| draw_prog(&kinds, 2, n / 2)).collect()
    };
    let (a, b, x, way) = (choose(64), choose(64), choose(64), choose(12));
    let rate = 1 + choose(8);
    sim().cmp = sim::CmpPlan { preempt: true, budget: 3_000_000, nest_at: nest(60), ..Default::default() };
    let mut one: SimStore<E> = SimStore::new(&ks);
    let mut two: Arena<E> = Arena::new(&ks);
    let ids1 = one.a.ids();
    let ids2 = two.ids();
    let (mut log1, mut log2) = (vec![], vec![]);
    mark();
    ev!("{} elements divided ({}), pre-emption {}/16", n, way, rate);
    sched::begin(rate);
    trace::begin(one.a.slice());
    let store = choose(2);
    let fates1 = match store {
        0 => scope(one.a.slice_mut(), |mut c| divide(&mut c, a, b, x, way, &progs, &mut log1, true)),
        _ => {
            use indexing::container_traits::ContiguousMut;
            scope((&mut one).as_mut_slice(), |mut c| divide(&mut c, a, b, x, way, &progs, &mut log1, true))
        }
    };
    sched::end();
    trace::end();
    check_stop();
    one.a.check_guards("dividing");
    ev!("threads ended: {:?}", fates1);
    mark();
    let fates2 = scope(two.slice_mut(), |mut c| divide(&mut c, a, b, x, way, &progs, &mut log2, false));
    check_stop();
    two.check_guards("dividing");
    check_stop();
    let (e1, e2) = (one.a.ids(), two.ids());
    let pos = |all: &[u32], ids: &[u32]| -> Vec<usize> { ids.iter().map(|i| all.iter().position(|x| x == i).unwrap_or(usize::MAX)).collect() };
    let (p1, p2) = (pos(&ids1, &e1), pos(&ids2, &e2));
    ev!("left {:?}", p1);
    if sorted(&e1) != sorted(&ids1) {
        flag(C12, "elements lost", format!("{:?} became {:?}", ids1, e1));
    }
    if fates1 != fates2 {
        flag(C12, "a thread's fate depends on the others", format!("together {:?}, alone {:?}", fates1, fates2));
    }
    if p1 != p2 {
        flag(C12, "parts interfere", format!("keys {:?}: together the threads leave {:?}, alone {:?}", ks, p1, p2));
    }
    if log1 != log2 {
        let at = log1.iter().zip(&log2).position(|(x, y)| x != y).unwrap_or(log1.len().min(log2.len()));
        flag(C12, "answers depend on other threads", format!("observation {}: together {:?}, alone {:?}", at, log1.get(at), log2.get(at)));
    }
    check_stop();
    let steps = sim().cmp.calls;
    state(&[n as u64, way as u64, rate as u64, p1.iter().fold(steps, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64))]);
    if n > 1 {
        nontrivial();
    }
    crate::elem::end_plan();
    drop(one);
    drop(two);
}

/// Threads reading one container with the same trusted indices.
fn readers<E: Elem>() {
    let n = 1 + choose(30);
    let ks = keys(n);
    let mut a: SimStore<E> = SimStore::new(&ks);
    let want = a.a.ids();
    let twin: Vec<u32> = want.clone();
    let m = 2 + choose(3);
    let rate = 1 + choose(8);
    let progs: Vec<Vec<(usize, usize, usize)>> = (0..m).map(|_| (0..1 + choose(6)).map(|_| (choose(9), choose(64), choose(8))).collect()).collect();
    let panics: Vec<u64> = (0..m).map(|_| if choose(5) == 4 { 1 + choose(20) as u64 } else { 0 }).collect();
    let stalls: Vec<usize> = (0..m).map(|_| if choose(5) == 4 { 1 + choose(30) } else { 0 }).collect();
    sim().cmp = sim::CmpPlan { preempt: true, budget: 3_000_000, nest_at: nest(60), ..Default::default() };
    let kind = choose(3);
    mark();
    ev!("{} readers of {} elements (kind {})", m, n, kind);
    sched::begin(rate);
    trace::begin(a.a.slice());
    let (low, high) = (a.a.slice().as_ptr() as usize, a.a.len());
    macro_rules! share {
        ($arr:expr) => {
            scope($arr, |c| {
                let t = c.make_twin(&twin[..]).ok();
                if t.is_none() {
                    flag(&["C12", "C11"], "twin refused", format!("{} elements", n));
                    check_stop();
                }
                let (x, y) = (choose(n), choose(n + 1));
                let (lo, hi) = (x.min(y), x.max(y));
                let (Ok(i), Ok(r)) = (lib(|| c.vet(x)), lib(|| c.vet_range(lo..hi))) else {
                    flag(C12, "vetting", format!("{} or {}..{} of {}", x, lo, hi, n));
                    return vec![];
                };
                for (k, s) in stalls.iter().enumerate() {
                    if *s > 0 {
                        sched::stall_next(k, *s);
                    }
                }
                let (c, t, want, progs, panics) = (&c, &t, &want, &progs, &panics);
                let tasks: Vec<Task> = (0..m)
                    .map(|k| {
                        let b: Task = Box::new(move || {
                            TL.with(|t| t.borrow_mut().start(panics[k], want.clone()));
                            trace::own(unsafe { std::slice::from_raw_parts(low as *const E, high) }, true);
                            for (kind, p, q) in &progs[k] {
                                yield_point();
                                let look = |what: &str, got: Vec<u32>, at: usize| {
                                    let end = at + got.len();
                                    if end > want.len() || got[..] != want[at..end] {
                                        flag(C12, "readers disagree", format!("{} at {} shows {:?}, not {:?}", what, at, got, &want[at.min(want.len())..end.min(want.len())]));
                                    }
                                };
                                let all = |e: &E| {
                                    callback();
                                    key_of(e.id()) % 8 != *q as i32
                                };
                                let len_from = |at: usize| want[at..].iter().take_while(|x| key_of(**x) % 8 != *q as i32).count();
                                match kind {
                                    0 => look("index", vec![lib(|| c[i].id())], x),
                                    1 => look("slice", lib(|| &c[r]).iter().map(|e| { callback(); e.id() }).collect(), lo),
                                    2 => {
                                        for j in r {
                                            callback();
                                            look("iteration", vec![lib(|| c[j].id())], j.integer());
                                        }
                                    }
                                    3 => {
                                        let (u, v) = lib(|| c.scan_range(r, all));
                                        let l = len_from(lo).min(hi - lo);
                                        if (u.start(), u.end(), v.end()) != (lo, lo + l, hi) {
                                            flag(C12, "readers disagree", format!("scan of {}..{} gave {}..{}", lo, hi, u.start(), u.end()));
                                        }
                                    }
                                    4 => {
                                        let u = lib(|| c.scan_from(i, all));
                                        let l = 1 + len_from(x + 1);
                                        if (u.start(), u.end()) != (x, x + l) {
                                            flag(C12, "readers disagree", format!("scan from {} gave {}..{}", x, u.start(), u.end()));
                                        }
                                    }
                                    5 => {
                                        let mut it = lib(|| r.subdivide(1 + p % 6));
                                        while let Some(s) = lib(|| it.next()) {
                                            callback();
                                            look("subdivision", lib(|| &c[s]).iter().map(|e| e.id()).collect(), s.start());
                                        }
                                    }
                                    6 => {
                                        let t = t.as_ref().unwrap();
                                        look("twin", vec![lib(|| t[i])], x);
                                        callback();
                                        look("twin slice", lib(|| &t[r]).to_vec(), lo);
                                    }
                                    7 => look("whole", c[..].iter().map(|e| { callback(); e.id() }).collect(), 0),
                                    _ => {
                                        let k = *p as i32 % 40;
                                        let f = |e: &E| { callback(); key_of(e.id()) < k };
                                        let got = lib(|| lower_bound_pslice(&c[..], f));
                                        let w: Vec<i32> = want.iter().map(|x| key_of(*x)).collect();
                                        if w.windows(2).all(|p| p[0] <= p[1]) && got != w.partition_point(|x| *x < k) {
                                            flag(C12, "readers disagree", format!("lower bound of {} in {:?} is {}", k, w, got));
                                        }
                                    }
                                }
                            }
                        });
                        b
                    })
                    .collect();
                par(tasks)
            })
        };
    }
    let fates = match kind {
        0 => share!(a.a.slice()),
        1 => share!(a.a.slice_mut()),
        _ => share!(&a.a),
    };
    sched::end();
    trace::end();
    check_stop();
    ev!("readers ended: {:?}", fates);
    a.a.check_guards("reading");
    if a.a.ids() != want {
        flag(C12, "reading changed the contents", format!("{:?} became {:?}", want, a.a.ids()));
    }
    crate::elem::end_plan();
    check_stop();
    nontrivial();
    let _ = chance;
    let _ = fault;
    drop(a);
}

/// Index and range values travel between threads; each thread moves its own copies.
fn cursors() {
    let n = 1 + choose(20);
    let data: Vec<u32> = (0..n as u32).collect();
    let m = 2 + choose(3);
    let progs: Vec<Vec<(usize, usize)>> = (0..m).map(|_| (0..2 + choose(12)).map(|_| (choose(7), choose(8))).collect()).collect();
    let rate = 2 + choose(8);
    mark();
    ev!("{} threads with cursors over {}", m, n);
    sched::begin(rate);
    trace::begin(&data[..]);
    scope(&data[..], |c| {
        let start = choose(n);
        let Ok(i0) = lib(|| c.vet(start)) else { return };
        let r0 = c.range();
        let mut ends: Vec<Option<(Index, Range)>> = vec![None; m];
        let tasks: Vec<Task> = ends
            .iter_mut()
            .zip(&progs)
            .map(|(e, p)| {
                let c = c.clone();
                let t: Task = Box::new(move || {
                    let (mut i, mut r) = (i0, r0);
                    let (mut mi, mut mr) = (start, (0, n));
                    for (k, x) in p {
                        yield_point();
                        match k {
                            0 => {
                                let ok = lib(|| c.forward(&mut i));
                                if ok != (mi + 1 < n) {
                                    flag(C12, "cursor", format!("forward at {} of {} said {}", mi, n, ok));
                                }
                                if mi + 1 < n {
                                    mi += 1
                                }
                            }
                            1 => {
                                lib(|| c.backward(&mut i));
                                mi = mi.saturating_sub(1);
                            }
                            2 => {
                                lib(|| c.forward_by(&mut i, *x));
                                if mi + x < n {
                                    mi += x
                                }
                            }
                            3 => {
                                let (a, b) = lib(|| r.split_in_half());
                                let mid = mr.0 + (mr.1 - mr.0) / 2;
                                if x % 2 == 0 {
                                    r = a;
                                    mr = (mr.0, mid)
                                } else {
                                    r = b;
                                    mr = (mid, mr.1)
                                }
                            }
                            4 => {
                                if let Ok(mut s) = lib(|| r.nonempty()) {
                                    if lib(|| s.advance()) {
                                        r = s.no_proof();
                                        mr.0 += 1;
                                    }
                                }
                            }
                            5 => {
                                r = lib(|| c.split_at(i)).1.no_proof();
                                mr = (mi, n);
                            }
                            _ => {
                                r = r0;
                                mr = (0, n);
                            }
                        }
                        if i.integer() != mi || (r.start(), r.end()) != mr {
                            flag(C12, "cursor", format!("after step {} of {:?}: index {} range {}..{}, expected {} {:?}", k, p, i.integer(), r.start(), r.end(), mi, mr));
                            return;
                        }
                        if c[i] != mi as u32 {
                            flag(C12, "cursor", format!("reads {} at {}", c[i], mi));
                        }
                    }
                    *e = Some((i, r));
                });
                t
            })
            .collect();
        par(tasks);
        check_stop();
        for (i, r) in ends.iter().flatten() {
            if i.integer() >= n || c[*i] != i.integer() as u32 || c[*r].len() != r.len() {
                flag(C12, "cursor", format!("handed back {} and {}..{}", i.integer(), r.start(), r.end()));
            }
        }
    });
    sched::end();
    trace::end();
    nontrivial();
    check_stop();
}

pub fn c12() {
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            sched::end();
            trace::end();
        }
    }
    let _e = End;
    match weighted(&[4, 4, 3, 2, 1, 1, 2]) {
        6 => parts::<Word>(),
        0 => parts::<Tok>(),
        1 => parts::<Small>(),
        2 => parts::<Big>(),
        3 => readers::<Tok>(),
        4 => readers::<Small>(),
        _ => cursors(),
    }
}

"""Client programs that the library must not admit: first those that would interfere with another client.

None of them compiles on a correct tree. The driver compiles each against the library; one that does
compile becomes a client of the simulated C12 workload, which then exhibits the interference.

shape a: the container holds `&[T]`;   another thread reads the slice.
shape b: only `&Container` is at hand; another thread reads through the same container.
shape c: a mutable part outlives the borrow it came from; both clients hold one.
shape d: two overlapping mutable parts are in use at once.
shape e: elements stay borrowed for reading while the other client has exclusive access to them.
shape s: storage that must not be shared between threads is.
"""

HEAD = """
use indexing::{scope, Container, Index, Range, NonEmpty, Unknown};
use indexing::pointer::*;
use indexing::container_traits::*;
use indexing::proof::Provable;
fn xch<T>(a: *mut T, b: *mut T) { unsafe { std::ptr::swap(a, b) } }
"""

A = "pub fn act<'id, 'a, T: Ord>(mut c: Container<'id, &'a [T]>, i: Index<'id>, j: Index<'id>, r: Range<'id>, s: Range<'id>) { %s }\n"
B = "pub fn act<'id, 'a, T: Ord>(c: &Container<'id, &'a mut [T]>, i: Index<'id>, j: Index<'id>, r: Range<'id>, s: Range<'id>) { %s }\n"
C = "pub fn act<'x, 'id, 'a, T: Ord>(c: &'x mut Container<'id, &'a mut [T]>, r: Range<'id>, s: Range<'id>) -> &'a mut [T] { %s }\n"

D = "pub fn act<'id, 'a, T: Ord>(c: &mut Container<'id, &'a mut [T]>, i: Index<'id>, j: Index<'id>, r: Range<'id>, s: Range<'id>, k: &mut dyn FnMut(&mut [T], &mut [T])) { %s k(u, v); }\n"
E = "pub fn act<'id, 'a, T: Ord>(c: &mut Container<'id, &'a mut [T]>, i: Index<'id>, j: Index<'id>, r: Range<'id>, s: Range<'id>, k: &mut dyn FnMut(Vec<&T>, &mut dyn FnMut())) { %s k(seen, &mut || c[r].reverse()); }\n"

MOVES = {
    "index": "let p: *mut T = &mut c[i]; let q: *mut T = &mut c[j]; xch(p, q);",
    "range": "c[r].reverse();",
    "range-from": "c[i..].reverse();",
    "range-to": "c[..j].reverse();",
    "range-full": "c[..].reverse();",
    "pointer-range": "let w = c.pointer_range(); c[w].reverse();",
    "swap": "c.swap(i, j);",
    "rotate-up": "c.rotate1_up(r);",
    "rotate-down": "c.rotate1_down(r);",
    "index-twice": "if let Ok((a, b)) = c.index_twice(r, s) { a.reverse(); b.reverse(); };",
    "zip-raw": "c.zip_mut_raw(r, s, |a, b| xch(a, b));",
    "split-container": "let w = c.pointer_range(); c.split_container_at_pointer(w.first(), |_, _, mut d, _| d[..].reverse());",
    "rotate-pointer": "let w = c.pointer_range(); if let Ok(w) = w.nonempty() { c.rotate1_prange(w); }",
    "swap-pointer": "let w = c.pointer_range(); if let Ok(w) = w.nonempty() { c.swap_ptr(w.first(), w.last()); }",
}

PROBES = {}
for _n, _m in MOVES.items():
    PROBES["shared-storage-" + _n] = ("a", HEAD + A % _m)
    PROBES["shared-borrow-" + _n] = ("b", HEAD + B % _m)
PROBES["shared-storage-zip"] = (
    "a",
    HEAD + A % "let w = c.pointer_range(); let k = c.len(); let mut o: Vec<usize> = vec![0; k]; scope(&mut o[..], |mut o| { let v = o.pointer_range(); let mut first: *mut T = std::ptr::null_mut(); zip(w, &mut c, v, &mut o, |x, _| { let x: &mut T = x; if first.is_null() { first = x } else { xch(first, x) } }) });",
)
PROBES["shared-borrow-clone"] = ("b", HEAD + B % "let mut d = c.clone(); d.swap(i, j);")
PROBES["shared-borrow-only-index"] = ("b", HEAD + B % "let mut d = (*c).only_index(); d.swap(i, j);")
PROBES["shared-borrow-twin"] = ("b", HEAD + B % "let mut d = c.make_twin(&c[..]).unwrap(); d.swap(i, j);")
PROBES["outlives-index"] = ("c", HEAD + C % "&mut c[r]")
PROBES["outlives-range-full"] = ("c", HEAD + C % "&mut c[..]")
PROBES["outlives-range-from"] = ("c", HEAD + C % "match r.nonempty() { Ok(r) => &mut c[r.first()..], Err(_) => loop {} }")
PROBES["outlives-pointer-range"] = ("c", HEAD + C % "let w = c.pointer_range(); &mut c[w]")
PROBES["outlives-index-twice"] = ("c", HEAD + C % "match c.index_twice(r, s) { Ok((a, _)) => a, Err(_) => loop {} }")

PARTS = {
    "range": "let %s = &mut c[r];",
    "full": "let %s = &mut c[..];",
    "from": "let ei = i.no_proof(); let %s = &mut c[ei..];",
    "to": "let ej = j.no_proof(); let %s = &mut c[..ej];",
    "pointer-range": "let w = c.pointer_range(); let %s = &mut c[w];",
    "pointer-from": "let w = c.pointer_range().first(); let %s = &mut c[w..];",
    "pointer-to": "let w = c.pointer_range().past_the_end(); let %s = &mut c[..w];",
    "twice": "let %s = c.index_twice(r, s).ok().unwrap().0;",
    "element": "let %s = std::slice::from_mut(&mut c[i]);",
}
for _n, _m in PARTS.items():
    PROBES["two-parts-" + _n] = ("d", HEAD + D % (_m % "u" + _m % "v"))
    if _n != "full":
        PROBES["two-parts-full-" + _n] = ("d", HEAD + D % (_m % "u" + PARTS["full"] % "v"))
SEEN = {
    "index": "let seen: Vec<&T> = vec![&c[i]];",
    "range": "let seen: Vec<&T> = c[r].iter().collect();",
    "from": "let seen: Vec<&T> = c[i..].iter().collect();",
    "to": "let seen: Vec<&T> = c[..j].iter().collect();",
    "full": "let seen: Vec<&T> = c[..].iter().collect();",
    "pointer": "let w = c.pointer_range().nonempty().ok().unwrap(); let seen: Vec<&T> = vec![&c[w.first()]];",
    "pointer-range": "let w = c.pointer_range(); let seen: Vec<&T> = c[w].iter().collect();",
    "pointer-from": "let w = c.pointer_range().first(); let seen: Vec<&T> = c[w..].iter().collect();",
    "pointer-to": "let w = c.pointer_range().past_the_end(); let seen: Vec<&T> = c[..w].iter().collect();",
    "scan": "let mut seen: Vec<&T> = vec![]; c.scan_range(r, |x| { seen.push(x); true });",
    "scan-from": "let mut seen: Vec<&T> = vec![]; c.scan_from(i, |x| { seen.push(x); true });",
    "scan-from-rev": "let mut seen: Vec<&T> = vec![]; c.scan_from_rev(j, |x| { seen.push(x); true });",
    "scan-pointer": "let mut seen: Vec<&T> = vec![]; let w = c.pointer_range(); c.scan_pointer_range(w, |x| { seen.push(x); true });",
    "scan-pointer-rev": "let mut seen: Vec<&T> = vec![]; let w = c.pointer_range(); c.scan_pointer_range_rev(w, |x| { seen.push(x); true });",
    "zip": "let mut seen: Vec<&T> = vec![]; let w = c.pointer_range(); zip(w, &*c, w, &*c, |x, _| seen.push(x));",
    "clone": "let seen: Vec<&T> = { let d = (*c).clone(); d[r].iter().collect() };",
}
for _n, _m in SEEN.items():
    PROBES["kept-" + _n] = ("e", HEAD + E % _m)

S = "use std::cell::Cell;" + HEAD + "pub fn act<'z, 'id, 'a>(c: &'z Container<'id, &'a [Cell<u32>]>, i: Index<'id>) -> (Box<dyn FnMut(u32) + Send + 'z>, Box<dyn FnMut() -> u32 + Send + 'z>) { %s }\n"
PROBES["other-thread-borrow"] = ("s", S % "(Box::new(move |x| c[i].set(x)), Box::new(move || c[i].get()))")
PROBES["other-thread-clone"] = ("s", S % "let (a, b) = (c.clone(), c.clone()); (Box::new(move |x| a[i].set(x)), Box::new(move || b[i].get()))")
PROBES["other-thread-only-index"] = ("s", S % "let (a, b) = (c.clone().only_index(), c.clone().only_index()); (Box::new(move |x| a[i].set(x)), Box::new(move || b[i].get()))")
PROBES["other-thread-slice"] = ("s", S % "let a = &c[c.range()]; (Box::new(move |x| a[0].set(x)), Box::new(move || a[0].get()))")

# ---- C01, C11, C13: programs that get hold of particles they could misuse ------------------------
#
# shape f: `i`, `e`, `r`, `n` are a dereferenceable index, an edge, a range and a non-empty range of `c`;
#          `d` is another container, with a brand of its own and a length of its own.
# shape g: a container that owns a growable vector, another vector, a position and a value.
# shape h: a container over a slice and another slice of the same length.
#
# They report what they got through `out`; the simulator judges it (bent.rs).

HEAD2 = HEAD + """
use std::mem::drop as unused;
type Out<'o> = &'o mut dyn FnMut(u8, usize, usize);
type E<'x> = Index<'x, Unknown>;
type R<'x> = Range<'x, Unknown>;
fn pos<'i>(out: Out, i: Index<'i>) { out(0, i.integer(), 0) }
fn edge<'i, P>(out: Out, i: Index<'i, P>) { out(1, i.integer(), 0) }
fn span<'i, P>(out: Out, r: Range<'i, P>) { out(2, r.start(), r.end()) }
fn full<'i>(out: Out, r: Range<'i, NonEmpty>) { out(3, r.start(), r.end()) }
fn el<T>(out: Out, x: *const T) { out(4, x as usize, 0) }
fn part<T>(out: Out, s: &[T]) { out(5, s.as_ptr() as usize, s.len()) }
fn dpos<'i>(out: Out, i: Index<'i>) { out(6, i.integer(), 0) }
fn dedge<'i, P>(out: Out, i: Index<'i, P>) { out(7, i.integer(), 0) }
fn dspan<'i, P>(out: Out, r: Range<'i, P>) { out(8, r.start(), r.end()) }
fn dfull<'i>(out: Out, r: Range<'i, NonEmpty>) { out(9, r.start(), r.end()) }
fn del<T>(out: Out, x: *const T) { out(10, x as usize, 0) }
fn dpart<T>(out: Out, s: &[T]) { out(11, s.as_ptr() as usize, s.len()) }
fn ppos<'i, T>(out: Out, p: PIndex<'i, T>) { out(4, p.ptr() as usize, 0) }
fn pedge<'i, T, P>(out: Out, p: PIndex<'i, T, P>) { out(5, p.ptr() as usize, 0) }
fn bytes<T>(a: *const T, b: *const T) -> Option<usize> { (b as usize).checked_sub(a as usize).map(|k| k / std::mem::size_of::<T>()) }
fn pspan<'i, T, P>(out: Out, r: PRange<'i, T, P>) { match bytes(r.first().ptr(), r.past_the_end().ptr()) { Some(k) => out(5, r.first().ptr() as usize, k), None => out(3, 0, 0) } }
fn pfull<'i, T>(out: Out, r: PRange<'i, T, NonEmpty>) { match bytes(r.first().ptr(), r.past_the_end().ptr()) { Some(k) if k > 0 => out(5, r.first().ptr() as usize, k), _ => out(3, 0, 0) } }
fn sspan<'i, T, P>(out: Out, r: PSlice<'i, T, P>) { out(5, r.first().ptr() as usize, r.len()) }
fn sfull<'i, T>(out: Out, r: PSlice<'i, T, NonEmpty>) { if r.len() == 0 { out(3, 0, 0) } out(5, r.first().ptr() as usize, r.len()) }
fn dpspan<'i, T, P>(out: Out, r: PRange<'i, T, P>) { match bytes(r.first().ptr(), r.past_the_end().ptr()) { Some(k) => out(11, r.first().ptr() as usize, k), None => out(3, 0, 0) } }
fn dppos<'i, T>(out: Out, p: PIndex<'i, T>) { out(10, p.ptr() as usize, 0) }
"""
F = HEAD2 + "pub fn act<'x, 'y, 'a, 'b, T: Clone + Ord>(c: &mut Container<'x, &'a mut [T]>, d: &mut Container<'y, &'b mut [T]>, i: Index<'x>, e: E<'x>, r: R<'x>, n: Range<'x, NonEmpty>, out: Out) { %s }\n"
PF = F % "let w: PRange<T, Unknown> = c.pointer_range(); let s = c.pointer_slice(); let wn: PRange<T, NonEmpty> = w.nonempty().ok().unwrap(); let sn: PSlice<T, NonEmpty> = s.nonempty().ok().unwrap(); let p: PIndex<T> = wn.last(); let pe: PIndex<T, Unknown> = w.past_the_end(); let we = c.pointer_range_of(pe..); let se = PSlice::from(we); %s"
# the control of a pointer probe: nothing is empty, nothing is an edge
PC = PF.replace("we = c.pointer_range_of(pe..)", "we = wn").replace("pe: PIndex<T, Unknown> = w.past_the_end()", "pe: PIndex<T> = wn.first()")

EDGE = {
    "deref": "el(out, &c[e]);",
    "deref-mut": "el(out, &mut c[e]);",
    "swap": "c.swap(i, e);",
    "swap-first": "c.swap(e, i);",
    "after": "edge(out, e.after());",
    "container-after": "span(out, c.after(e));",
    "split-after": "let (a, b) = c.split_after(e); span(out, a); span(out, b);",
    "forward": "let mut x = e; c.forward(&mut x); edge(out, x);",
    "forward-by": "let mut x = e; c.forward_by(&mut x, 1); edge(out, x);",
    "backward": "let mut x = e; c.backward(&mut x); edge(out, x);",
    "scan-from": "span(out, c.scan_from(e, |_| true));",
    "scan-from-rev": "span(out, c.scan_from_rev(e, |_| true));",
    "first": "pos(out, r.first());",
    "last": "pos(out, r.last());",
    "lower-middle": "pos(out, r.lower_middle());",
    "upper-middle": "pos(out, r.upper_middle());",
    "tail": "span(out, r.tail());",
    "init": "span(out, r.init());",
    "advance": "let mut q = r; q.advance(); span(out, q);",
    "advance-by": "let mut q = r; q.advance_by(1); span(out, q);",
    "advance-back": "let mut q = r; q.advance_back(); span(out, q);",
    "advance-copy": "if let Ok(q) = r.advance_() { full(out, q) }",
    "claim": "pos(out, e);",
    "claim-range": "full(out, r);",
    "claim-half": "full(out, r.split_in_half().1);",
    "claim-join": "let (a, b) = r.frontiers(); full(out, a.join(r).ok().unwrap()); unused(b);",
    "claim-cover": "let (a, b) = r.frontiers(); full(out, r.join_cover(a)); unused(b);",
    "claim-cover-both": "let (a, b) = r.frontiers(); full(out, r.join_cover_both(a)); unused(b);",
    "claim-rest": "full(out, c.split_at(e).1);",
}
# these are wrong for every particle: there is no correct program to compare with
FORGED = {
    "claim-end": "pos(out, n.past_the_end());",
    "claim-after": "pos(out, i.after());",
    "claim-first-half": "full(out, n.split_in_half().0);",
    "claim-tail": "full(out, n.tail());",
    "claim-init": "full(out, n.init());",
    "claim-cut": "full(out, n.split_at(0).0);",
    "claim-cut-rest": "full(out, n.split_at(n.len()).1);",
    "claim-frontier": "full(out, n.frontiers().0);",
    "claim-frontier-2": "full(out, n.frontiers().1);",
    "claim-before": "full(out, c.before(i));",
    "claim-rest-after": "full(out, c.after(i));",
    "claim-split": "full(out, c.split_at(i).0);",
    "claim-split-after": "full(out, c.split_after(i).1);",
    "claim-around": "full(out, c.split_around(n).0);",
    "claim-around-2": "full(out, c.split_around(n).1);",
    "claim-forward": "full(out, c.forward_range_by(n, 9));",
    "claim-vetted": "full(out, c.vet_range(0..0).ok().unwrap());",
    "claim-scanned": "full(out, c.scan_range(n, |_| false).0);",
    "claim-unscanned": "full(out, c.scan_range(n, |_| true).1);",
    "claim-whole": "dfull(out, d.range());",
    "claim-whole-first": "dpos(out, d.range().first());",
    "claim-iter": "full(out, n.into_iter().into_range());",
    "claim-narrow": "pos(out, r.into());",
    "claim-into": "pos(out, e.into());",
    "claim-range-into": "full(out, r.into());",
    "default": "dpos(out, Index::<'y>::default());",
    "default-range": "dfull(out, Range::<'y, NonEmpty>::default());",
    "made-of-number": "pos(out, Index::<'x>::from(99usize));",
    "number-into": "pos(out, 99usize.into());",
    "made-of-bounds": "span(out, Range::<'x>::from(3usize..99));",
    "bounds-into": "span::<Unknown>(out, (3usize..99).into());",
    "made-new": "pos(out, Index::<'x>::new(99));",
    "made-range": "span(out, Range::<'x>::new(3, 99));",
    "plus": "pos(out, i + 99);",
    "edge-plus": "edge(out, e + 99);",
    "plus-assign": "let mut x = i; x += 99; pos(out, x);",
    "minus": "pos(out, i - 1);",
    "range-plus": "span(out, r + 99);",
    "field": "let mut x = i; x.index += 99; pos(out, x);",
    "field-end": "let mut x = r; x.end += 99; span(out, x);",
    "field-proof": "full(out, Range { id: r.id, start: r.start, end: r.end, proof: std::marker::PhantomData });",
    "escape": "let i = scope(&mut c[..], |u| u.range().nonempty().ok().unwrap().last()); scope(&mut d[..], |u| del(out, &u[i]));",
    "escape-range": "let r = scope(&mut c[..], |u| u.range()); scope(&mut d[..], |u| dpart(out, &u[r]));",
    "chosen-brand": "scope(&mut d[..], |u: Container<'x, &mut [T]>| del(out, &u[i]));",
    "chosen-brand-range": "scope(&mut d[..], |u: Container<'x, &mut [T]>| dpart(out, &u[n]));",
}
FOREIGN = {
    "index": "del(out, &d[i]);",
    "index-mut": "del(out, &mut d[i]);",
    "range": "dpart(out, &d[r]);",
    "range-mut": "dpart(out, &mut d[n]);",
    "from": "dpart(out, &d[e..]);",
    "from-mut": "dpart(out, &mut d[e..]);",
    "to": "dpart(out, &d[..e]);",
    "to-mut": "dpart(out, &mut d[..e]);",
    "swap": "d.swap(i, n.last());",
    "rotate-up": "d.rotate1_up(n);",
    "rotate-down": "d.rotate1_down(n);",
    "twice": "if let Ok((a, b)) = d.index_twice(n, c.after(i)) { dpart(out, a); dpart(out, b); }",
    "zip-raw": "d.zip_mut_raw(n, n, |a, b| { del(out, a); del(out, b); });",
    "scan-from": "dspan(out, d.scan_from(i, |_| true));",
    "scan-from-rev": "dspan(out, d.scan_from_rev(i, |_| true));",
    "scan-range": "d.scan_range(n, |x| { del(out, x); true });",
    "split-at": "let (a, b) = d.split_at(e); dspan(out, a); dspan(out, b);",
    "split-after": "let (a, b) = d.split_after(i); dspan(out, a); dspan(out, b);",
    "split-around": "let (a, b) = d.split_around(n); dspan(out, a); dspan(out, b);",
    "before": "dspan(out, d.before(i));",
    "after": "dspan(out, d.after(i));",
    "range-of": "dspan(out, d.range_of(..e));",
    "range-of-from": "dspan(out, d.range_of(e..));",
    "forward": "let mut x = i; d.forward(&mut x); dpos(out, x);",
    "backward": "let mut x = i; d.backward(&mut x); dpos(out, x);",
    "join": "if let Ok(q) = d.range().join(c.range_of(e..)) { dpart(out, &d[q]) }",
    "cover": "dpart(out, &d[d.range().join_cover(n)]);",
    "cover-both": "dpart(out, &d[d.range().join_cover_both(n)]);",
    "assign": "let mut x = d.range(); x = r; dpart(out, &d[x]);",
}
GROW = {
    # C01: the length of a container never drops below a position it gave out
    "clear": ("C01", "let mut c = c; c.clear(); ins(out, &c[i], &c[..]);"),
    "pop": ("C01", "let mut c = c; while c.len() > 0 { unused(c.pop()); } ins(out, &c[i], &c[..]);"),
    "truncate": ("C01", "let mut c = c; c.truncate(0); ins(out, &c[i], &c[..]);"),
    "remove": ("C01", "let mut c = c; while c.len() > 0 { let f = c.range().nonempty().ok().unwrap().first(); c.remove(f); } ins(out, &c[i], &c[..]);"),
    "swap-remove": ("C01", "let mut c = c; while c.len() > 0 { let f = c.range().nonempty().ok().unwrap().first(); c.swap_remove(f); } ins(out, &c[i], &c[..]);"),
    "take": ("C01", "let mut c = c; std::mem::take(&mut *c); ins(out, &c[i], &c[..]);"),
    "deref-clear": ("C01", "let mut c = c; std::ops::DerefMut::deref_mut(&mut c).clear(); ins(out, &c[i], &c[..]);"),
    "as-mut-clear": ("C01", "let mut c = c; let v: &mut Vec<T> = c.as_mut(); v.clear(); ins(out, &c[i], &c[..]);"),
    "array-clear": ("C01", "let mut c = c; c.array_mut().clear(); ins(out, &c[i], &c[..]);"),
    "field-clear": ("C01", "let mut c = c; c.arr.clear(); ins(out, &c[i], &c[..]);"),
    "only-index-clear": ("C01", "let mut c = c.only_index(); c.clear(); ins(out, &c[i], &c[..]);"),
    "only-index-pop": ("C01", "let mut c = c.only_index(); while c.len() > 0 { unused(c.pop()); } ins(out, &c[i], &c[..]);"),
    "only-index-remove": ("C01", "let mut c = c.only_index(); while c.len() > 0 { let f = c.range().nonempty().ok().unwrap().first(); c.remove(f); } ins(out, &c[i], &c[..]);"),
    "only-index-truncate": ("C01", "let mut c = c.only_index(); c.truncate(0); ins(out, &c[i], &c[..]);"),
    "replace": ("C01", "let mut c = c; std::mem::swap(&mut *c, &mut Vec::new()); ins(out, &c[i], &c[..]);"),
    "edge-push": ("C01", "let mut c = c.only_index(); let k: Index = c.range().past_the_end(); ins(out, &c[k], &c[..]);"),
    "insert-mid": ("C01", "let mut c = c.only_index(); c.insert(99usize, x); ins(out, &c[i], &c[..]);"),
    # C11: what may grow has no twins
    "clone": ("C11", "let c = c.only_index(); let mut d = c.clone(); let k = d.push(x); ins(out, &c[k], &c[..]);"),
    "clone-first": ("C11", "let d = c.clone(); let mut c = c.only_index(); let k = c.push(x); ins(out, &d[k], &d[..]);"),
    "clone-mut": ("C11", "let mut v = o; scope(&mut v, |c| { let c = c.only_index(); let mut d = c.clone(); let k = d.push(x); ins(out, &c[k], &c[..]); });"),
    "twin": ("C11", "let mut d = c.make_twin(o).ok().unwrap(); let k = d.push(x); ins(out, &c[k], &c[..]);"),
    "twin-mut": ("C11", "let mut o = o; let mut d = c.make_twin(&mut o).ok().unwrap(); let k = d.push(x); ins(out, &c[k], &c[..]);"),
    "twin-slice": ("C11", "let d = c.make_twin(&o[..]).ok().unwrap(); let mut c = c.only_index(); let k = c.push(x); ins(out, &d[k], &d[..]);"),
    "twin-only-index": ("C11", "let mut c = c.only_index(); let d = c.make_twin(&o[..]).ok().unwrap(); let k = c.push(x); ins(out, &d[k], &d[..]);"),
    "twin-of-mut": ("C11", "let mut v = o.clone(); scope(&mut v, |c| { let d = c.make_twin(&o[..]).ok().unwrap(); let mut c = c.only_index(); let k = c.push(x); ins(out, &d[k], &d[..]); });"),
    "twin-of-slice": ("C11", "let mut v = o.clone(); scope(&mut v[..], |c| { let mut d = c.make_twin(o).ok().unwrap(); let k = d.push(x); ins(out, &c[k], &c[..]); });"),
    "twin-of-slice-mut": ("C11", "let mut v = o.clone(); let mut o = o; scope(&mut v[..], |c| { let mut d = c.make_twin(&mut o).ok().unwrap(); let k = d.push(x); ins(out, &c[k], &c[..]); });"),
    # C13: a container that gave out pointers does not move its elements
    "push": ("C13", "let p = c.pointer_range().nonempty().ok().unwrap().first(); let mut c = c; for _ in 0..64 { c.push(x.clone()); } ins(out, &c[p], &c[..]);"),
    "insert": ("C13", "let p = c.pointer_range().nonempty().ok().unwrap().first(); let mut c = c; for _ in 0..64 { c.insert(i, x.clone()); } ins(out, &c[p], &c[..]);"),
    "pointer-then-index": ("C13", "let p = c.pointer_range().nonempty().ok().unwrap().first(); let mut c = c.only_index(); for _ in 0..64 { c.push(x.clone()); } ins(out, &c[p], &c[..]);"),
    "range-then-index": ("C13", "let p = c.pointer_range(); let mut c = c.only_index(); for _ in 0..64 { c.push(x.clone()); } ins(out, c[p].as_ptr(), &c[..]);"),
    "from-then-index": ("C13", "let p = c.pointer_range().first(); let mut c = c.only_index(); for _ in 0..64 { c.push(x.clone()); } ins(out, c[p..].as_ptr(), &c[..]);"),
    "index-then-pointer": ("C13", "let mut c = c.only_index(); let p = c.pointer_range().nonempty().ok().unwrap().first(); for _ in 0..64 { c.push(x.clone()); } ins(out, &c[p], &c[..]);"),
    "index-then-slice": ("C13", "let mut c = c.only_index(); let p = c.pointer_slice().nonempty().ok().unwrap().first(); for _ in 0..64 { c.push(x.clone()); } ins(out, &c[p], &c[..]);"),
    "scan-moved": ("C13", "let mut c = c.only_index(); let p = c.pointer_range(); for _ in 0..64 { c.push(x.clone()); } let (at, len) = (c[..].as_ptr() as usize, c.len()); c.scan_pointer_range(p, |x| { out(x as *const T as usize, at, len); true });"),
    "vec-mut": ("C13", "let mut v = o; scope(&mut v, |c| { let p = c.pointer_range().nonempty().ok().unwrap().first(); let mut c = c; for _ in 0..64 { c.push(x.clone()); } ins(out, &c[p], &c[..]); });"),
}
HEADG = HEAD + """
use std::mem::drop as unused;
type Out<'o> = &'o mut dyn FnMut(usize, usize, usize);
fn ins<T>(out: Out, x: *const T, s: &[T]) { out(x as usize, s.as_ptr() as usize, s.len()) }
"""
GF = HEADG + "pub fn act<'x, T: Clone + Ord>(c: Container<'x, Vec<T>>, o: Vec<T>, i: Index<'x>, x: T, out: Out) { %s }\n"
TWIN = {
    "index": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range().nonempty().ok().unwrap().first(); ins(out, &d[p], &d[..]);",
    "range": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range(); ins(out, d[p].as_ptr(), &d[..]);",
    "range-mut": "let mut d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range(); let (a, n) = (d[..].as_ptr() as usize, d.len()); out(d[p].as_mut_ptr() as usize, a, n);",
    "from": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range().first(); ins(out, d[p..].as_ptr(), &d[..]);",
    "to": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range().past_the_end(); if d[..p].len() != d.len() { out(1, 0, 0) }",
    "scan": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range(); let (a, n) = (d[..].as_ptr() as usize, d.len()); d.scan_pointer_range(p, |x| { out(x as *const T as usize, a, n); true });",
    "scan-rev": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range(); let (a, n) = (d[..].as_ptr() as usize, d.len()); d.scan_pointer_range_rev(p, |x| { out(x as *const T as usize, a, n); true });",
    "scan-tail": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range().past_the_end(); let (a, n) = (d[..].as_ptr() as usize, d.len()); d.scan_tail_(p, |x| { out(x as *const T as usize, a, n); true });",
    "swap": "let mut d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range().nonempty().ok().unwrap(); d.swap_ptr(p.first(), p.last());",
    "rotate": "let mut d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range().nonempty().ok().unwrap(); d.rotate1_prange(p);",
    "split-container": "let mut d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range().nonempty().ok().unwrap().last(); d.split_container_at_pointer(p, |_, _, mut u, _| u[..].reverse());",
    "zip": "let d = c.make_twin(o).ok().unwrap(); let p = c.pointer_range(); let (a, n) = (d[..].as_ptr() as usize, d.len()); zip(p, &d, p, &c, |x, _| out(x as *const T as usize, a, n));",
    "back": "let d = c.make_twin(o).ok().unwrap(); let p = d.pointer_range().nonempty().ok().unwrap().first(); ins(out, &c[p], &c[..]);",
    "back-range": "let d = c.make_twin(o).ok().unwrap(); let p = d.pointer_range(); ins(out, c[p].as_ptr(), &c[..]);",
    "back-slice": "let d = c.make_twin(o).ok().unwrap(); let p = d.pointer_slice().nonempty().ok().unwrap().first(); ins(out, &c[p], &c[..]);",
}
H = HEADG + "pub fn act<'x, 'a, 'b, T: Clone + Ord>(c: Container<'x, &'a mut [T]>, o: &'b mut [T], i: Index<'x>, out: Out) { %s }\n"
PEDGE = {
    "deref": "el(out, &c[pe]);",
    "swap": "c.swap_ptr(p, pe);",
    "swap-first": "c.swap_ptr(pe, p);",
    "after": "pedge(out, pe.after());",
    "first": "ppos(out, we.first());",
    "last": "ppos(out, we.last());",
    "upper-middle": "ppos(out, we.upper_middle());",
    "tail": "pspan(out, we.tail());",
    "init": "pspan(out, we.init());",
    "advance": "let mut q = we; q.advance(); pspan(out, q);",
    "advance-back": "let mut q = we; q.advance_back(); pspan(out, q);",
    "rotate": "c.rotate1_prange(we);",
    "claim": "ppos(out, pe);",
    "claim-range": "pfull(out, we);",
    "claim-half": "pfull(out, we.split_in_half().1);",
    "claim-rest": "pfull(out, c.split_at_pointer(pe).1);",
    "claim-scan": "pfull(out, c.scan_tail_(pe, |_| false));",
    "slice-first": "ppos(out, se.first());",
    "slice-last": "ppos(out, se.last());",
    "slice-middle": "ppos(out, se.upper_middle());",
    "slice-tail": "sspan(out, se.tail());",
    "slice-init": "sspan(out, se.init());",
    "slice-advance": "let mut q = se; q.advance(); sspan(out, q);",
    "slice-advance-back": "let mut q = se; q.advance_back(); sspan(out, q);",
    "slice-claim": "sfull(out, se);",
    "slice-claim-half": "sfull(out, se.split_in_half().1);",
    "claim-of-slice": "let q: PRange<T, NonEmpty> = se.into(); pfull(out, q);",
    "claim-of-range": "let q: PSlice<T, NonEmpty> = we.into(); sfull(out, q);",
}
PFORGED = {
    "claim-end": "ppos(out, wn.past_the_end());",
    "claim-after": "ppos(out, p.after());",
    "claim-first-half": "pfull(out, wn.split_in_half().0);",
    "claim-tail": "pfull(out, wn.tail());",
    "claim-init": "pfull(out, wn.init());",
    "claim-pointers": "let o = d.pointer_range(); if o.first().ptr() == o.past_the_end().ptr() { out(9, 0, 0) } unused(o.last());",
    "claim-of": "pfull(out, c.pointer_range_of(pe..));",
    "claim-split": "pfull(out, c.split_at_pointer(wn.first()).0);",
    "claim-scanned": "pfull(out, c.scan_pointer_range(wn, |_| false).0);",
    "claim-unscanned": "pfull(out, c.scan_pointer_range(wn, |_| true).1);",
    "claim-scanned-rev": "pfull(out, c.scan_pointer_range_rev(wn, |_| true).0);",
    "claim-iter": "let mut k = wn.into_iter(); for _ in &mut k { } pfull(out, k.into_range());",
    "claim-slice-half": "sfull(out, sn.split_in_half().0);",
    "claim-slice-tail": "sfull(out, sn.tail());",
    "claim-slice-init": "sfull(out, sn.init());",
    "claim-slice-end": "ppos(out, sn.past_the_end());",
    "default": "ppos(out, PIndex::<'x, T>::default());",
    "default-range": "pfull(out, PRange::<'x, T, NonEmpty>::default());",
    "default-slice": "sfull(out, PSlice::<'x, T, NonEmpty>::default());",
    "made-of-pointer": "ppos(out, PIndex::<'x, T>::from(d[..].as_ptr()));",
    "made-new": "ppos(out, unsafe { PIndex::<'x, T>::new(d[..].as_ptr()) });",
    "plus": "ppos(out, p + 9);",
    "add": "ppos(out, p.add(9));",
    "offset": "ppos(out, p.offset(-99));",
    "escape": "let i = scope(&mut c[..], |u| u.pointer_range().nonempty().ok().unwrap().last()); scope(&mut d[..], |u| del(out, &u[i]));",
    "escape-range": "let r = scope(&mut c[..], |u| u.pointer_range()); scope(&mut d[..], |u| dpart(out, &u[r]));",
    "chosen-brand": "scope(&mut d[..], |u: Container<'x, &mut [T]>| del(out, &u[p]));",
    "chosen-brand-range": "scope(&mut d[..], |u: Container<'x, &mut [T]>| dpart(out, &u[w]));",
}
PFOREIGN = {
    "index": "del(out, &d[p]);",
    "range": "dpart(out, &d[w]);",
    "range-mut": "dpart(out, &mut d[wn]);",
    "from": "dpart(out, &d[p..]);",
    "from-mut": "dpart(out, &mut d[p..]);",
    "to": "dpart(out, &d[..pe]);",
    "scan": "d.scan_pointer_range(wn, |x| { del(out, x); true });",
    "scan-rev": "d.scan_pointer_range_rev(wn, |x| { del(out, x); true });",
    "scan-tail": "dpspan(out, d.scan_tail_(p, |_| true));",
    "range-of": "dpspan(out, d.pointer_range_of(..p));",
    "range-of-from": "dpspan(out, d.pointer_range_of(p..));",
    "nonempty-range": "if let Ok(q) = d.nonempty_range(wn.first(), pe) { dpspan(out, q) }",
    "split-at": "let (a, b) = d.split_at_pointer(p); dpspan(out, a); dpspan(out, b);",
    "zip": "zip(w, &*d, w, &*c, |x, _| del(out, x));",
    "zip-slice": "zip(s, &*d, s, &*c, |x, _| del(out, x));",
    "swap": "out(12, 0, 0); d.swap_ptr(wn.first(), wn.last());",
    "rotate": "out(12, 0, 0); d.rotate1_prange(wn);",
    "split-container": "out(12, 0, 0); d.split_container_at_pointer(wn.first(), |_, _, mut u, _| u[..].reverse());",
    "lower-bound": "let q = indexing::algorithms::lower_bound_prange_(wn, &*d, |x| { del(out, x); false }); out(11, q.ptr() as usize, 0);",
    "assign": "let mut x = d.pointer_range(); x = w; dpart(out, &d[x]);",
}
BENT = {}
BENT.update(("edge-" + k, ("f", "C01", F % v)) for k, v in EDGE.items())
BENT.update(("forged-" + k, ("f", "C01", F % v)) for k, v in FORGED.items())
BENT.update(("foreign-" + k, ("f", "C01", F % v)) for k, v in FOREIGN.items())
BENT.update(("grow-" + k, ("g", p, GF % v)) for k, (p, v) in GROW.items())
BENT.update(("twin-pointer-" + k, ("h", "C13", H % v)) for k, v in TWIN.items())
BENT.update(("pointer-edge-" + k, ("f", "C13", PF % v)) for k, v in PEDGE.items())
BENT.update(("pointer-forged-" + k, ("f", "C13", PF % v)) for k, v in PFORGED.items())
BENT.update(("pointer-foreign-" + k, ("f", "C13", PF % v)) for k, v in PFOREIGN.items())
OF = {n: "C12" for n in PROBES}
for _n, (_s, _p, _t) in BENT.items():
    PROBES[_n] = (_s, _t)
    OF[_n] = _p


def control(name):
    """The same program over storage that is held exclusively: it has to compile."""
    shape, text = PROBES[name]
    if name.startswith("edge-"):
        return text.replace("e: E<'x>, r: R<'x>", "e: Index<'x>, r: Range<'x, NonEmpty>")
    if name.startswith(("foreign-", "pointer-foreign-")):
        return text.replace("d: &mut Container<'y", "d: &mut Container<'x")
    if name.startswith("pointer-edge-"):
        return PC % PEDGE[name[13:]]
    if shape in "fgh":
        return None
    if shape == "a":
        return text.replace("Container<'id, &'a [T]>", "Container<'id, &'a mut [T]>")
    if shape == "b" and not name.endswith(("clone", "twin", "only-index")):
        return text.replace("c: &Container", "c: &mut Container")
    if shape == "s":
        return text.replace(" + Send", "")
    if shape == "c":
        return text.replace("-> &'a mut [T]", "-> &'x mut [T]")
    if shape == "d":
        return text.replace("k(u, v);", "k(v, &mut []);")
    if shape == "e" and name != "kept-clone":
        return text.replace("c[r].reverse()", "c.len()").replace("&mut dyn FnMut())", "&mut dyn FnMut() -> usize)")
    return None

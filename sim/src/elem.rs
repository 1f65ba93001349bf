//! Simulated elements. Every element has an identity and a key kept in the simulator's ledger;
//! comparing elements asks the simulator, dropping them is recorded.

use crate::ev;
use crate::sim::{self, choose, flag, sim, Stop};
use std::cmp::Ordering;
use std::fmt;

pub const NOID: u32 = u32::MAX;

pub trait Elem: Ord + Send + Sync + fmt::Debug + Sized + 'static {
    fn new(key: i32) -> Self;
    /// identity, or NOID if this is not a valid element
    fn id(&self) -> u32;
}

fn register(key: i32) -> u32 {
    record(key, false)
}
fn record(key: i32, plain: bool) -> u32 {
    let mut s = sim();
    s.toks.push(sim::TokRec { key, dropped: false, plain });
    (s.toks.len() - 1) as u32
}

pub fn key_of(id: u32) -> i32 {
    sim().toks.get(id as usize).map_or(i32::MIN, |t| t.key)
}

fn on_drop(id: u32) {
    let _q = crate::trace::quiet();
    let r = {
        let mut s = sim();
        match s.toks.get_mut(id as usize) {
            None => 2,
            Some(t) if t.dropped => 1,
            Some(t) => {
                t.dropped = true;
                0
            }
        }
    };
    match r {
        1 => flag(sim::OWNERSHIP, "double-drop", format!("element {} was dropped twice", id)),
        2 => flag(&["*"], "drop-wild", "something that is not an element was dropped".to_string()),
        _ => {}
    }
}

/// Key of an element whose place the adversary has not fixed yet.
pub const GAS: i32 = i32::MAX - 100;

/// A comparison of two zero-sized elements.
pub fn compare_unit() -> Option<Ordering> {
    let _q = crate::trace::quiet();
    let (crash, lie, none, stuck) = {
        let mut s = sim();
        s.cmp.calls += 1;
        let crash = if s.cmp.calls == s.cmp.panic_at {
            "cmp_panic"
        } else if s.cmp.calls >= s.cmp.budget {
            "cmp_budget"
        } else {
            ""
        };
        (crash, s.cmp.lie, s.cmp.none, s.cmp.stuck)
    };
    if !crash.is_empty() {
        sim::crash(crash);
    }
    let mut ans = Some(Ordering::Equal);
    if stuck > 0 {
        ans = Some([Ordering::Less, Ordering::Equal, Ordering::Greater][stuck as usize - 1]);
    } else if lie > 0 && choose(256) >= 256 - lie as usize {
        ans = Some([Ordering::Less, Ordering::Equal, Ordering::Greater][choose(3)]);
    } else if none > 0 && choose(256) >= 256 - none as usize {
        ans = None;
    }
    if ans != Some(Ordering::Equal) {
        sim().cmp.lies += 1;
    }
    ans
}

/// Zero-sized elements that count themselves.
pub struct Unit(());
pub static UNITS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
impl Unit {
    pub fn new() -> Self {
        UNITS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Unit(())
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        UNITS.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
impl PartialEq for Unit {
    fn eq(&self, o: &Self) -> bool {
        self.partial_cmp(o) == Some(Ordering::Equal)
    }
}
impl Eq for Unit {}
impl PartialOrd for Unit {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        compare_unit()
    }
}
impl Ord for Unit {
    fn cmp(&self, _: &Self) -> Ordering {
        compare_unit().unwrap_or(Ordering::Equal)
    }
}

/// What a simulated thread may see and when it dies.
#[derive(Default)]
pub struct ThreadState {
    n: u64,
    at: u64,
    allowed: Vec<u32>,
}
impl ThreadState {
    pub fn start(&mut self, panic_at: u64, mut allowed: Vec<u32>) {
        allowed.sort();
        *self = ThreadState { n: 0, at: panic_at, allowed };
    }
    pub fn admit(&mut self, id: u32) {
        if let Err(i) = self.allowed.binary_search(&id) {
            self.allowed.insert(i, id);
        }
    }
    fn sees(&self, id: u32) -> bool {
        self.allowed.binary_search(&id).is_ok()
    }
    /// Returns true when the thread dies here.
    fn tick(&mut self) -> bool {
        self.n += 1;
        self.n == self.at
    }
}
pub fn thread_step() {
    if TL.with(|t| t.borrow_mut().tick()) {
        sim::crash("thread_panic")
    }
}
thread_local! { pub static TL: std::cell::RefCell<ThreadState> = std::cell::RefCell::new(ThreadState::default()); }

/// The library compares `a` with `b`: the simulator answers.
pub fn compare(a: u32, b: u32) -> Option<Ordering> {
    let _q = crate::trace::quiet();
    enum Act {
        Answer(Option<Ordering>),
        Wild(&'static str),
        Crash(&'static str),
    }
    if sim().cmp.preempt {
        if crate::sched::active() {
            crate::sched::yield_point();
        }
        if !TL.with(|t| t.borrow().sees(a) && t.borrow().sees(b)) {
            flag(&["*"], "cmp-foreign", format!("a thread's comparison was shown an element of another part ({} vs {})", a as i32, b as i32));
            std::panic::resume_unwind(Box::new(Stop))
        }
        thread_step();
    }
    let nest = {
        let s = sim();
        s.cmp.nest_at != 0 && s.cmp.calls + 1 == s.cmp.nest_at
    };
    if nest {
        crate::nested::nested();
    }
    let act = {
        let mut s = sim();
        s.cmp.calls += 1;
        let n = s.toks.len() as u32;
        if a >= n || b >= n {
            Act::Wild("the comparison was shown something that is not an element")
        } else if s.toks[a as usize].dropped || s.toks[b as usize].dropped {
            Act::Wild("the comparison was shown a dropped element")
        } else if !s.cmp.ids.is_empty()
            && ![a, b].iter().all(|x| s.cmp.ids.iter().any(|r| r.0 <= *x && *x < r.1))
        {
            Act::Wild("the comparison was shown an element of foreign storage")
        } else if s.cmp.calls == s.cmp.panic_at {
            Act::Crash("cmp_panic")
        } else if s.cmp.calls >= s.cmp.budget {
            Act::Crash("cmp_budget")
        } else {
            if let Some((next, cand)) = s.cmp.adapt {
                let (ga, gb) = (s.toks[a as usize].key == GAS, s.toks[b as usize].key == GAS);
                let mut next = next;
                if ga && gb && a != b {
                    let fix = if a == cand { a } else { b };
                    s.toks[fix as usize].key = next;
                    next += 1;
                }
                let cand = if s.toks[a as usize].key == GAS {
                    a
                } else if s.toks[b as usize].key == GAS {
                    b
                } else {
                    cand
                };
                s.cmp.adapt = Some((next, cand));
            }
            Act::Answer(Some(s.toks[a as usize].key.cmp(&s.toks[b as usize].key)))
        }
    };
    match act {
        Act::Wild(m) => {
            flag(&["*"], "cmp-wild", format!("{} ({} vs {})", m, a as i32, b as i32));
            std::panic::resume_unwind(Box::new(Stop))
        }
        Act::Crash(k) => sim::crash(k),
        Act::Answer(honest) => {
            let (lie, none, stuck) = {
                let s = sim();
                (s.cmp.lie, s.cmp.none, s.cmp.stuck)
            };
            let mut ans = honest;
            if stuck > 0 {
                ans = Some([Ordering::Less, Ordering::Equal, Ordering::Greater][stuck as usize - 1]);
            } else if lie > 0 && choose(256) >= 256 - lie as usize {
                ans = Some([Ordering::Less, Ordering::Equal, Ordering::Greater][choose(3)]);
            } else if none > 0 && choose(256) >= 256 - none as usize {
                ans = None;
            }
            let mut s = sim();
            if ans != honest {
                s.cmp.lies += 1;
            }
            if s.cmp.keep {
                s.cmp.answers.push((a, b, ans));
            }
            ans
        }
    }
}

/// Takes the comparison plan's counters into the fault statistics and resets the plan.
pub fn end_plan() -> sim::CmpPlan {
    let p = std::mem::take(&mut sim().cmp);
    sim::fault_n("cmp_contradictory_answer", p.lies);
    if p.calls > 0 {
        ev!("plan: {} comparisons, {} untrue answers", p.calls, p.lies);
    }
    p
}

macro_rules! elem {
    ($name:ident) => {
        impl Drop for $name {
            fn drop(&mut self) {
                on_drop(self.id());
            }
        }
        compared!($name);
    };
}
macro_rules! compared {
    ($name:ident) => {
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.partial_cmp(o) == Some(Ordering::Equal)
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                compare(self.id(), o.id())
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                compare(self.id(), o.id()).unwrap_or(Ordering::Equal)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "#{}", self.id() as i32)
            }
        }
    };
}

/// 32 bytes, alignment 32: its Vec storage lives on the simulated heap.
#[repr(C, align(32))]
pub struct Tok {
    magic: u64,
    id: u32,
}
const MAGIC: u64 = 0x7ea1_70c4_0e1e_3e47;
impl Elem for Tok {
    fn new(key: i32) -> Self {
        Tok { magic: MAGIC, id: register(key) }
    }
    fn id(&self) -> u32 {
        if self.magic == MAGIC { self.id } else { NOID }
    }
}
elem!(Tok);

/// 4 bytes.
#[repr(C)]
pub struct Small {
    id: u16,
    chk: u16,
}
impl Elem for Small {
    fn new(key: i32) -> Self {
        let id = register(key) as u16;
        Small { id, chk: !id ^ 0x5a5a }
    }
    fn id(&self) -> u32 {
        if self.chk == !self.id ^ 0x5a5a { self.id as u32 } else { NOID }
    }
}
elem!(Small);

/// 133 bytes, alignment 1.
#[repr(C)]
pub struct Big {
    b: [u8; 133],
}
fn pattern(id: u32, k: usize) -> u8 {
    (id ^ (id >> 8) ^ 0x5a) as u8 ^ (k as u8).wrapping_mul(37)
}
impl Elem for Big {
    fn new(key: i32) -> Self {
        let id = register(key);
        let mut b = [0; 133];
        for k in 0..4 {
            b[k] = (id >> (8 * k)) as u8;
        }
        for k in 4..133 {
            b[k] = pattern(id, k);
        }
        Big { b }
    }
    fn id(&self) -> u32 {
        let id = u32::from_le_bytes([self.b[0], self.b[1], self.b[2], self.b[3]]);
        if (4..133).all(|k| self.b[k] == pattern(id, k)) { id } else { NOID }
    }
}
elem!(Big);

/// 8 bytes that need no drop.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Word {
    id: u32,
    chk: u32,
}
impl Elem for Word {
    fn new(key: i32) -> Self {
        let id = record(key, true);
        Word { id, chk: !id.rotate_left(7) }
    }
    fn id(&self) -> u32 {
        if self.chk == !self.id.rotate_left(7) { self.id } else { NOID }
    }
}
compared!(Word);

/// 16 bytes that need no drop.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Pair {
    id: u64,
    chk: u64,
}
impl Elem for Pair {
    fn new(key: i32) -> Self {
        let id = record(key, true) as u64;
        Pair { id, chk: !id.rotate_left(9) }
    }
    fn id(&self) -> u32 {
        if self.chk == !self.id.rotate_left(9) { self.id as u32 } else { NOID }
    }
}
compared!(Pair);

pub fn ids<E: Elem>(v: &[E]) -> Vec<u32> {
    v.iter().map(|e| e.id()).collect()
}
pub fn keys(ids: &[u32]) -> Vec<i32> {
    ids.iter().map(|i| key_of(*i)).collect()
}
pub fn sorted(v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    v.sort();
    v
}

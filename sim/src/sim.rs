//! The simulator core: one choice tape decides everything, an event log is hashed (and kept as
//! text when replaying), injected faults and reach probes are counted, and the first violation of
//! the property under test is recorded.

use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::{self, Write as _};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Mutex, MutexGuard};

/// xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

/// Payload of an injected panic.
pub struct SimFault(pub &'static str);
/// Payload used to abandon a run once a violation is recorded.
pub struct Stop;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

/// State of one simulated element, by id.
#[derive(Clone, Copy)]
pub struct TokRec {
    pub key: i32,
    pub dropped: bool,
    /// its type needs no drop
    pub plain: bool,
}

/// What the simulator does when the library compares two elements (or calls a comparator).
#[derive(Clone)]
pub struct CmpPlan {
    pub calls: u64,
    /// panic at this call (1-based), 0 = never
    pub panic_at: u64,
    /// out of 256: answer at random
    pub lie: u32,
    /// out of 256: answer "incomparable"
    pub none: u32,
    /// 0 = none; otherwise always answer Less / Equal / Greater (1, 2, 3)
    pub stuck: u32,
    /// crash the caller after so many comparisons (bounds runs with contradictory answers)
    pub budget: u64,
    /// element ids the comparison may be shown
    pub ids: Vec<(u32, u32)>,
    /// thread pre-emption point at each call
    pub preempt: bool,
    /// keep the answers
    pub keep: bool,
    pub answers: Vec<(u32, u32, Option<std::cmp::Ordering>)>,
    pub lies: u64,
    /// at this call (1-based, 0 = never) the comparison itself uses the library
    pub nest_at: u64,
    /// McIlroy's adversary: (next key, candidate); keys are fixed as late as possible
    pub adapt: Option<(i32, u32)>,
}

impl Default for CmpPlan {
    fn default() -> Self {
        CmpPlan {
            calls: 0,
            panic_at: 0,
            lie: 0,
            none: 0,
            stuck: 0,
            budget: u64::MAX,
            ids: Vec::new(),
            preempt: false,
            keep: false,
            answers: Vec::new(),
            lies: 0,
            nest_at: 0,
            adapt: None,
        }
    }
}

pub struct Sim {
    pub prop: &'static str,
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub tape: Vec<u32>,
    pub marks: Vec<u32>,
    pub hash: u64,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub viol: Option<Violation>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub toks: Vec<TokRec>,
    pub cmp: CmpPlan,
    pub nontrivial: bool,
    pub known: BTreeMap<&'static str, (u64, String)>,
    /// unbuffered copy of tape and events (for runs that kill the process)
    pub stream: Option<std::fs::File>,
}

impl Sim {
    const fn empty() -> Sim {
        Sim {
            prop: "",
            rng: Rng([1, 2, 3, 4]),
            replay: None,
            pos: 0,
            tape: Vec::new(),
            marks: Vec::new(),
            hash: 0,
            events: 0,
            trace: None,
            viol: None,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: Vec::new(),
            toks: Vec::new(),
            cmp: CmpPlan {
                calls: 0,
                panic_at: 0,
                lie: 0,
                none: 0,
                stuck: 0,
                budget: u64::MAX,
                ids: Vec::new(),
                preempt: false,
                keep: false,
                answers: Vec::new(),
                lies: 0,
                nest_at: 0,
                adapt: None,
            },
            nontrivial: false,
            known: BTreeMap::new(),
            stream: None,
        }
    }
    fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            Some(t) => {
                let raw = t.get(self.pos).copied().unwrap_or(0);
                if raw < n { raw } else { raw % n }
            }
            None => ((self.rng.next() >> 32) * n as u64 >> 32) as u32,
        };
        self.pos += 1;
        self.tape.push(v);
        if let Some(f) = &mut self.stream {
            let _ = std::io::Write::write_all(f, format!("t {}\n", v).as_bytes());
        }
        v
    }
}

static SIM: Mutex<Sim> = Mutex::new(Sim::empty());

pub struct Held {
    guard: MutexGuard<'static, Sim>,
    _quiet: crate::trace::Quiet,
}
impl std::ops::Deref for Held {
    type Target = Sim;
    fn deref(&self) -> &Sim {
        &self.guard
    }
}
impl std::ops::DerefMut for Held {
    fn deref_mut(&mut self) -> &mut Sim {
        &mut self.guard
    }
}
pub fn sim() -> Held {
    let _quiet = crate::trace::quiet();
    Held { guard: SIM.lock().unwrap_or_else(|e| e.into_inner()), _quiet }
}

// ---- choices ----------------------------------------------------------------------------------

/// A choice in 0..n. 0 is the simplest value (shrinking moves towards it).
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    sim().draw(n as u32) as usize
}

/// true with probability num/den; false is the simple value.
pub fn chance(num: usize, den: usize) -> bool {
    sim().draw(den as u32) as usize >= den - num
}

/// Weighted choice of an index.
pub fn weighted(w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    let mut v = sim().draw(total);
    for (i, &x) in w.iter().enumerate() {
        if v < x {
            return i;
        }
        v -= x;
    }
    w.len() - 1
}

pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len())]
}

/// A number in 0..=max, small ones preferred.
pub fn small(max: usize) -> usize {
    let m = 1 + choose(4);
    let cap = (max * m + 3) / 4;
    choose(cap.min(max) + 1)
}

/// Any machine word: near one of `near`, small, or extreme.
pub fn word(near: &[usize]) -> usize {
    match choose(8) {
        0 | 1 | 2 if !near.is_empty() => {
            let b = near[choose(near.len())];
            match choose(3) {
                0 => b,
                1 => b.wrapping_add(1),
                _ => b.wrapping_sub(1),
            }
        }
        3 => pick(&[usize::MAX, isize::MAX as usize, usize::MAX / 2 + 1, 1 << 63, usize::MAX - 1]),
        4 if !near.is_empty() => 0usize.wrapping_sub(near[choose(near.len())]).wrapping_sub(choose(3)),
        _ => choose(12),
    }
}

/// `n` numbers below `m`; a long sequence is derived from a single choice, so that tapes of big
/// runs stay short.
pub fn seq(n: usize, m: usize) -> Vec<usize> {
    if n <= 64 {
        return (0..n).map(|_| choose(m)).collect();
    }
    let mut r = Rng::new(choose(1 << 31) as u64);
    (0..n).map(|_| (r.next() % m.max(1) as u64) as usize).collect()
}

/// A position 1..=max, spread evenly over magnitudes (crash points).
pub fn crash_point(max: u64) -> u64 {
    let bits = 64 - max.max(1).leading_zeros() as usize;
    let b = choose(bits);
    let lo = 1u64 << b;
    (lo + choose(lo.min(1 << 30) as usize) as u64).min(max.max(1))
}

/// Marks a step boundary (used by the minimiser).
pub fn mark() {
    let mut s = sim();
    let p = s.tape.len() as u32;
    s.marks.push(p);
}

// ---- event log --------------------------------------------------------------------------------

struct HashW(u64);
impl fmt::Write for HashW {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(())
    }
}

pub fn log(a: fmt::Arguments) {
    let _q = crate::trace::quiet();
    // formatting happens outside the lock: Debug impls may look elements up
    let h0 = sim().hash;
    let mut h = HashW(h0 ^ 0x5bd1_e995);
    let _ = h.write_fmt(a);
    let text = if sim().trace.is_some() { Some(fmt::format(a)) } else { None };
    let mut s = sim();
    s.hash = h.0.rotate_left(5).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    s.events += 1;
    let n = s.events;
    if let Some(text) = text {
        let line = format!("[{}] {}", n, text);
        if let Some(f) = &mut s.stream {
            let _ = std::io::Write::write_all(f, format!("e {}\n", line).as_bytes());
        }
        if let Some(t) = s.trace.as_mut() {
            t.push(line);
        }
    }
}

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::sim::log(format_args!($($t)*)) };
}

/// A counted fault that actually fired.
pub fn fault(kind: &'static str) {
    let mut s = sim();
    *s.faults.entry(kind).or_insert(0) += 1;
    s.nontrivial = true;
}
pub fn fault_n(kind: &'static str, n: u64) {
    if n > 0 {
        let mut s = sim();
        *s.faults.entry(kind).or_insert(0) += n;
        s.nontrivial = true;
    }
}
/// "This rare condition was hit."
pub fn probe(name: &'static str) {
    *sim().probes.entry(name).or_insert(0) += 1;
}
pub fn nontrivial() {
    sim().nontrivial = true;
}
/// Records an abstract state reached.
pub fn state(parts: &[u64]) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &p in parts {
        h = (h ^ p).wrapping_mul(0x100_0000_01b3).rotate_left(17);
    }
    sim().states.push(h);
}

// ---- violations -------------------------------------------------------------------------------

/// Records a violation if the property under test is one of `props` ("*" = any).
pub fn flag(props: &[&str], class: &str, msg: String) {
    let _q = crate::trace::quiet();
    let mut s = sim();
    if s.viol.is_none() && (props.contains(&"*") || props.contains(&s.prop)) {
        if let Some(t) = s.trace.as_mut() {
            t.push(format!("VIOLATION {}: {}", class, msg));
        }
        s.viol = Some(Violation { class: class.to_string(), msg });
    }
}
/// A violation that is listed as a known finding is counted; one that is not listed is flagged.
pub fn flag_known(props: &[&str], id: &'static str, msg: String) {
    let mut s = sim();
    if !props.contains(&s.prop) {
        return;
    }
    if KNOWN.get().is_some_and(|k| k.iter().any(|x| *x == format!("{}:{}", s.prop, id))) {
        s.known.entry(id).or_insert((0, msg)).0 += 1;
        return;
    }
    drop(s);
    flag(props, id, msg);
}
pub static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

pub fn flagged() -> bool {
    sim().viol.is_some()
}
/// Abandons the run if a violation is recorded. Not to be called while unwinding.
pub fn check_stop() {
    let e = crate::heap::error();
    if e != 0 {
        flag(&["*"], "heap", format!("simulated heap: {}", crate::heap::describe(e)));
    }
    if flagged() {
        resume_unwind(Box::new(Stop));
    }
}
/// Raises an injected panic. Does not run the panic hook.
pub fn crash(kind: &'static str) -> ! {
    fault(kind);
    ev!("FAULT {}", kind);
    resume_unwind(Box::new(SimFault(kind)))
}

/// Runs `f`; an injected fault is returned as Err(kind), everything else keeps unwinding.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, &'static str> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => match p.downcast::<SimFault>() {
            Ok(k) => Err(k.0),
            Err(p) => resume_unwind(p),
        },
    }
}

/// Like `attempt`, but an ordinary panic (raised by the library or std) is Err("panic: ..").
pub fn attempt_any<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Stop>() {
                resume_unwind(p)
            }
            match p.downcast::<SimFault>() {
                Ok(k) => Err(k.0.to_string()),
                Err(_) => Err(format!("panic: {}", last_panic())),
            }
        }
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
thread_local! { pub static IN_HOOK: Cell<bool> = const { Cell::new(false) }; }

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let _q = crate::trace::quiet();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file().rsplit('/').next().unwrap_or("");
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} ({})", msg, loc);
        if !info.can_unwind() {
            eprintln!("non-unwinding panic: {} ({})", msg, loc);
        }
    }));
    std::alloc::set_alloc_error_hook(|_| {
        resume_unwind(Box::new(SimFault("alloc_fail")));
    });
}

// ---- one run ----------------------------------------------------------------------------------

pub enum Source {
    Seed(u64),
    Tape(Vec<u32>),
}

pub struct Outcome {
    pub viol: Option<Violation>,
    pub tape: Vec<u32>,
    pub marks: Vec<u32>,
    pub hash: u64,
    pub events: u64,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub nontrivial: bool,
    pub known: BTreeMap<&'static str, (u64, String)>,
}

pub fn run(prop: &'static str, src: Source, trace: bool, workload: fn()) -> Outcome {
    run_streamed(prop, src, trace, None, workload)
}

pub fn run_streamed(
    prop: &'static str,
    src: Source,
    trace: bool,
    stream: Option<std::fs::File>,
    workload: fn(),
) -> Outcome {
    {
        let mut s = sim();
        *s = Sim::empty();
        s.stream = stream;
        s.prop = prop;
        match src {
            Source::Seed(x) => s.rng = Rng::new(x),
            Source::Tape(t) => s.replay = Some(t),
        }
        if trace {
            s.trace = Some(Vec::new());
        }
    }
    crate::heap::reset();
    let r = catch_unwind(AssertUnwindSafe(workload));
    if let Err(p) = r {
        if p.is::<Stop>() {
        } else if let Some(f) = p.downcast_ref::<SimFault>() {
            let k = f.0;
            flag(&["*"], "escaped-fault", format!("an injected fault ({}) surfaced where none was expected", k));
        } else {
            let m = last_panic();
            flag(&["*"], "panic", format!("unexpected panic: {}", m));
        }
        drop_payload(p);
    }
    crate::heap::finish();
    let e = crate::heap::error();
    if e != 0 {
        flag(&["*"], "heap", format!("simulated heap: {}", crate::heap::describe(e)));
    }
    // exactly-once ownership: everything created has been dropped
    let alive: Vec<usize> =
        sim().toks.iter().enumerate().filter(|(_, t)| !t.dropped && !t.plain).map(|(i, _)| i).collect();
    if !alive.is_empty() {
        flag(OWNERSHIP, "leak", format!("elements {:?} were never dropped", alive));
    }
    let mut s = sim();
    Outcome {
        viol: s.viol.take(),
        tape: std::mem::take(&mut s.tape),
        marks: std::mem::take(&mut s.marks),
        hash: s.hash,
        events: s.events,
        trace: s.trace.take().unwrap_or_default(),
        faults: std::mem::take(&mut s.faults),
        probes: std::mem::take(&mut s.probes),
        states: std::mem::take(&mut s.states),
        nontrivial: s.nontrivial,
        known: std::mem::take(&mut s.known),
    }
}

fn drop_payload(p: Box<dyn Any + Send>) {
    drop(p)
}

/// Properties that state exactly-once ownership of elements.
pub const OWNERSHIP: &[&str] = &["C02", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14"];

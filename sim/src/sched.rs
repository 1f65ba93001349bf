//! Real threads released one at a time. Exactly one thread holds the baton; it gives the baton away
//! only at a pre-emption point (or when it ends), to a thread chosen from the tape.

use crate::sim::{choose, fault, flagged, SimFault, Stop};
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::thread::Thread;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}
struct Threads {
    st: Vec<St>,
    parent: Vec<usize>,
    handle: Vec<Option<Thread>>,
    /// pre-emption probability out of 16
    rate: usize,
    /// (thread, number of switches it is left out of)
    stalled: (usize, usize),
}

static ON: AtomicBool = AtomicBool::new(false);
static CUR: AtomicUsize = AtomicUsize::new(0);
static T: Mutex<Threads> = Mutex::new(Threads {
    st: Vec::new(),
    parent: Vec::new(),
    handle: Vec::new(),
    rate: 0,
    stalled: (usize::MAX, 0),
});
thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }

fn threads() -> std::sync::MutexGuard<'static, Threads> {
    T.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn active() -> bool {
    ON.load(SeqCst)
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}

/// Starts scheduling with the current thread as thread 0.
pub fn begin(rate: usize) {
    let mut t = threads();
    t.st = vec![St::Ready];
    t.parent = vec![0];
    t.handle = vec![Some(std::thread::current())];
    t.rate = rate;
    t.stalled = (usize::MAX, 0);
    CUR.store(0, SeqCst);
    ME.with(|m| m.set(0));
    crate::trace::stack_begins();
    ON.store(true, SeqCst);
}
pub fn end() {
    ON.store(false, SeqCst);
}
/// Thread `i` (counted from the next one spawned) will not be picked `n` times.
pub fn stall_next(i: usize, n: usize) {
    let mut t = threads();
    let id = t.st.len() + i;
    t.stalled = (id, n);
}

fn wait_for_baton(id: usize) {
    while CUR.load(SeqCst) != id {
        std::thread::park();
    }
}

/// Picks the next thread among the ready ones other than `me`; None if there is none.
fn next_other(me: usize) -> Option<usize> {
    let mut ready: Vec<usize> = {
        let t = threads();
        (0..t.st.len()).filter(|&i| i != me && t.st[i] == St::Ready).collect()
    };
    if ready.is_empty() {
        return None;
    }
    if ready.len() > 1 {
        let mut t = threads();
        let (who, left) = t.stalled;
        if left > 0 && ready.contains(&who) {
            t.stalled.1 -= 1;
            drop(t);
            ready.retain(|x| *x != who);
            fault("thread_stalled");
        }
    }
    Some(ready[choose(ready.len())])
}

fn hand_to(id: usize) {
    CUR.store(id, SeqCst);
    let h = threads().handle[id].clone();
    if let Some(h) = h {
        h.unpark();
    }
}

/// A pre-emption point.
pub fn yield_point() {
    if !active() {
        return;
    }
    let _q = crate::trace::quiet();
    let rate = threads().rate;
    let me = me();
    if choose(16) >= 16 - rate {
        if let Some(n) = next_other(me) {
            fault("preemption");
            crate::ev!("switch {} -> {}", me, n);
            hand_to(n);
            wait_for_baton(me);
        }
    }
    if flagged() && !std::thread::panicking() {
        resume_unwind(Box::new(Stop));
    }
}

/// A pre-emption that happens if there is a thread to pre-empt for; never unwinds.
pub fn preempt() -> bool {
    if !active() {
        return false;
    }
    let me = me();
    match next_other(me) {
        None => false,
        Some(n) => {
            crate::ev!("switch {} -> {} inside the library", me, n);
            hand_to(n);
            wait_for_baton(me);
            true
        }
    }
}

pub type Task<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Runs the tasks on their own threads under the scheduler; returns the fault each died of, if any.
pub fn par(tasks: Vec<Task>) -> Vec<Option<&'static str>> {
    let me_id = me();
    let n = tasks.len();
    let base = {
        let mut t = threads();
        let base = t.st.len();
        for _ in 0..n {
            t.st.push(St::Ready);
            t.parent.push(me_id);
            t.handle.push(None);
        }
        t.st[me_id] = St::Blocked(n);
        base
    };
    let mut out: Vec<Result<(), Box<dyn Any + Send>>> = Vec::new();
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for (k, task) in tasks.into_iter().enumerate() {
            let id = base + k;
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    ME.with(|m| m.set(id));
                    crate::trace::stack_begins();
                    wait_for_baton(id);
                    let r = catch_unwind(AssertUnwindSafe(task));
                    {
                        let mut t = threads();
                        t.st[id] = St::Done;
                        let p = t.parent[id];
                        if let St::Blocked(k) = t.st[p] {
                            t.st[p] = if k == 1 { St::Ready } else { St::Blocked(k - 1) };
                        }
                    }
                    if let Some(n) = next_other(id) {
                        hand_to(n);
                    }
                    r
                })
                .unwrap();
            threads().handle[id] = Some(h.thread().clone());
            hs.push(h);
        }
        if let Some(n) = next_other(me_id) {
            hand_to(n);
        }
        wait_for_baton(me_id);
        for h in hs {
            out.push(h.join().unwrap());
        }
    });
    let mut res = Vec::new();
    for r in out {
        match r {
            Ok(()) => res.push(None),
            Err(p) => match p.downcast::<SimFault>() {
                Ok(f) => res.push(Some(f.0)),
                Err(p) => resume_unwind(p),
            },
        }
    }
    res
}

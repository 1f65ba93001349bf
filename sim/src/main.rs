#![feature(alloc_error_hook, panic_can_unwind, thread_local)]
#![allow(clippy::all)]

#[macro_use]
mod sim;
mod elem;
mod nested;
mod fence;
mod heap;
mod sched;
mod store;
mod trace;
mod w;

use sim::{Outcome, Source};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

const STACK: usize = 512 << 20;

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

/// Ends the process with SIGPROF when one run takes more CPU time than that.
fn cpu_limit(secs: i64) {
    let t = [0i64, 0, secs, 0];
    unsafe {
        setitimer(2, &t, std::ptr::null_mut());
    }
}

fn workload(prop: &str) -> (&'static str, fn()) {
    match w::WORKLOADS.iter().find(|x| x.0 == prop) {
        Some(x) => *x,
        None => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
}

fn run_seed(seed: u64, prop: &str, cfg: u64, idx: u64) -> u64 {
    let mut x = seed ^ 0x1dea_5eed;
    let mut h = sim::splitmix(&mut x);
    for b in prop.bytes() {
        x ^= h ^ b as u64;
        h = sim::splitmix(&mut x);
    }
    x ^= h ^ cfg.wrapping_mul(0x9E37_79B9);
    h = sim::splitmix(&mut x);
    x ^= h ^ idx;
    sim::splitmix(&mut x)
}

fn read_tape(path: &str) -> Vec<u32> {
    std::fs::read_to_string(path)
        .expect("tape file")
        .split_whitespace()
        .map(|x| x.parse().expect("tape entry"))
        .collect()
}
fn write_tape(path: &str, t: &[u32]) {
    let s: Vec<String> = t.iter().map(|x| x.to_string()).collect();
    std::fs::write(path, s.join(" ")).expect("write tape");
}
fn one_line(s: &str) -> String {
    s.replace('\n', " ").replace('\r', " ")
}

fn worker(a: &[String]) {
    let (prop, wl) = workload(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let cfg: u64 = a[2].parse().unwrap();
    let start: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let out = &a[5];
    let deadline = std::time::Instant::now()
        + std::time::Duration::from_secs(a[6].parse().unwrap());
    let progress = std::fs::File::create(format!("{}.progress", out)).unwrap();
    let mut hashes: Vec<u8> = Vec::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut known: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    let (mut runs, mut events, mut nontrivial, mut withfault) = (0u64, 0u64, 0u64, 0u64);
    let mut chain = 0u64;
    let mut samples: Vec<String> = Vec::new();
    for idx in start..start + count {
        if runs % 64 == 0 && std::time::Instant::now() > deadline {
            break;
        }
        use std::os::unix::fs::FileExt;
        let _ = progress.write_at(&idx.to_le_bytes(), 0);
        cpu_limit(30);
        let s = run_seed(seed, prop, cfg, idx);
        let want = start == 0 && samples.is_empty() && idx >= 3;
        let o = sim::run(prop, Source::Seed(s), want, wl);
        runs += 1;
        events += o.events;
        chain = (chain ^ o.hash).wrapping_mul(0x100_0000_01b3).rotate_left(9);
        if o.nontrivial {
            nontrivial += 1;
            if hashes.len() < 64 << 20 {
                hashes.extend_from_slice(&o.hash.to_le_bytes());
            }
        }
        if !o.faults.is_empty() {
            withfault += 1;
        }
        if want && o.nontrivial && o.trace.len() >= 5 {
            samples.push(format!("run {} seed {}", idx, s));
            samples.extend(o.trace.iter().take(40).cloned());
        }
        if states.len() < 2_000_000 {
            states.extend(o.states.iter().copied());
        }
        for (k, v) in &o.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.known {
            let e = known.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
        if let Some(v) = o.viol {
            write_tape(&format!("{}.tape", out), &o.tape);
            println!("viol {} {}\t{}\t{}", idx, s, one_line(&v.class), one_line(&v.msg));
            break;
        }
    }
    std::fs::write(format!("{}.hashes", out), &hashes).unwrap();
    let mut sb = Vec::with_capacity(states.len() * 8);
    for s in &states {
        sb.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(format!("{}.states", out), &sb).unwrap();
    println!("stat runs {}", runs);
    println!("stat events {}", events);
    println!("stat nontrivial {}", nontrivial);
    println!("stat runs_with_fault {}", withfault);
    println!("chain {:016x}", chain);
    for (k, v) in faults {
        println!("fault {} {}", k, v);
    }
    for (k, v) in probes {
        println!("probe {} {}", k, v);
    }
    for (k, v) in known {
        println!("known {} {} {}", k, v.0, one_line(&v.1));
    }
    for s in samples {
        println!("sample {}", one_line(&s));
    }
    println!("done");
}

fn report(o: &Outcome) {
    for l in &o.trace {
        println!("{}", one_line(l));
    }
    println!("hash {:016x} events {}", o.hash, o.events);
    for (k, v) in &o.faults {
        println!("fault {} {}", k, v);
    }
    match &o.viol {
        Some(v) => println!("viol\t{}\t{}", one_line(&v.class), one_line(&v.msg)),
        None => println!("ok"),
    }
}

/// exec PROP (seed:N | tape:FILE) [trace] [stream:FILE]
fn exec(a: &[String]) {
    let (prop, wl) = workload(&a[0]);
    let src = if let Some(s) = a[1].strip_prefix("seed:") {
        Source::Seed(s.parse().unwrap())
    } else {
        Source::Tape(read_tape(a[1].strip_prefix("tape:").unwrap()))
    };
    let mut trace = false;
    let mut stream = None;
    let mut tape_out = None;
    for x in &a[2..] {
        if x == "trace" {
            trace = true;
        } else if let Some(f) = x.strip_prefix("stream:") {
            stream = Some(std::fs::File::create(f).unwrap());
        } else if let Some(f) = x.strip_prefix("tapeout:") {
            tape_out = Some(f.to_string());
        } else if let Some(w) = x.strip_prefix("warm:") {
            // VERIF_SEED,CFG,START,END: the runs that came before in the same process
            let v: Vec<u64> = w.split(',').map(|n| n.parse().unwrap()).collect();
            for idx in v[2]..v[3] {
                cpu_limit(30);
                let _ = sim::run(prop, Source::Seed(run_seed(v[0], prop, v[1], idx)), false, wl);
            }
        }
    }
    cpu_limit(30);
    let o = sim::run_streamed(prop, src, trace, stream, wl);
    if let Some(f) = tape_out {
        write_tape(&f, &o.tape);
    }
    report(&o);
}

struct Shrink {
    prop: &'static str,
    wl: fn(),
    class: String,
    left: u64,
    best: Vec<u32>,
    marks: Vec<u32>,
}
impl Shrink {
    fn try_(&mut self, t: Vec<u32>) -> bool {
        if self.left == 0 || t == self.best {
            return false;
        }
        self.left -= 1;
        cpu_limit(30);
        let o = sim::run(self.prop, Source::Tape(t), false, self.wl);
        match &o.viol {
            Some(v) if v.class == self.class => {
                let better = (o.tape.len(), o.tape.iter().map(|x| *x as u64).sum::<u64>())
                    < (self.best.len(), self.best.iter().map(|x| *x as u64).sum::<u64>());
                if better {
                    self.best = o.tape;
                    self.marks = o.marks;
                }
                better
            }
            _ => false,
        }
    }
    fn without(&self, a: usize, b: usize) -> Vec<u32> {
        let mut t = self.best[..a].to_vec();
        t.extend_from_slice(&self.best[b..]);
        t
    }
    fn go(&mut self) {
        // adopt the normalised tape
        let o = sim::run(self.prop, Source::Tape(self.best.clone()), false, self.wl);
        self.marks = o.marks;
        if o.tape.len() <= self.best.len() {
            self.best = o.tape;
        }
        for _round in 0..6 {
            let before = (self.best.len(), self.best.iter().map(|x| *x as u64).sum::<u64>());
            // steps
            let mut k = self.marks.len().max(1);
            while k >= 1 {
                let mut i = 0;
                while i < self.marks.len() {
                    let a = self.marks[i] as usize;
                    let b = self.marks.get(i + k).map_or(self.best.len(), |x| *x as usize);
                    if a < b && b <= self.best.len() {
                        let t = self.without(a, b);
                        if self.try_(t) {
                            continue;
                        }
                    }
                    i += k.max(1);
                }
                k /= 2;
            }
            // raw segments
            let mut len = (self.best.len() / 2).max(1);
            while len >= 1 {
                let mut i = 0;
                while i < self.best.len() {
                    let e = (i + len).min(self.best.len());
                    let t = self.without(i, e);
                    if !self.try_(t) {
                        i += len;
                    }
                    if self.left == 0 {
                        return;
                    }
                }
                len /= 2;
            }
            // zero blocks
            let mut len = 32;
            while len >= 1 {
                let mut i = 0;
                while i < self.best.len() {
                    let e = (i + len).min(self.best.len());
                    if self.best[i..e].iter().any(|x| *x != 0) {
                        let mut t = self.best.clone();
                        t[i..e].iter_mut().for_each(|x| *x = 0);
                        self.try_(t);
                    }
                    i += len;
                    if self.left == 0 {
                        return;
                    }
                }
                len /= 4;
            }
            // smaller values
            let mut i = 0;
            while i < self.best.len() {
                let v = self.best[i];
                for nv in [v / 2, v.saturating_sub(1)] {
                    if nv < v && i < self.best.len() {
                        let mut t = self.best.clone();
                        t[i] = nv;
                        if self.try_(t) {
                            break;
                        }
                    }
                }
                i += 1;
                if self.left == 0 {
                    return;
                }
            }
            let after = (self.best.len(), self.best.iter().map(|x| *x as u64).sum::<u64>());
            if after == before {
                break;
            }
        }
    }
}

/// shrink PROP TAPEFILE CLASS MAXRUNS OUTTAPE
fn shrink(a: &[String]) {
    let (prop, wl) = workload(&a[0]);
    let mut s = Shrink {
        prop,
        wl,
        class: a[2].clone(),
        left: a[3].parse().unwrap(),
        best: read_tape(&a[1]),
        marks: Vec::new(),
    };
    let total = s.left;
    s.go();
    write_tape(&a[4], &s.best);
    println!("shrunk to {} choices in {} runs", s.best.len(), total - s.left);
}

/// distinct FILE...: how many different 64-bit values the files hold
fn distinct(a: &[String]) {
    let mut all: Vec<u64> = Vec::new();
    for f in a {
        let b = std::fs::read(f).unwrap_or_default();
        all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    all.sort_unstable();
    all.dedup();
    println!("{}", all.len());
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    unsafe {
        setrlimit(4, &[0, 0]); // no core files
        setrlimit(9, &[8 << 30, 8 << 30]); // address space
    }
    let known = std::env::var("SIM_KNOWN").unwrap_or_default();
    let _ = sim::KNOWN.set(known.split(',').map(|s| s.trim().to_string()).collect());
    sim::install_hooks();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match args.first().map(|s| s.as_str()) {
            Some("worker") => worker(&args[1..]),
            Some("exec") => exec(&args[1..]),
            Some("shrink") => shrink(&args[1..]),
            // seedof PROP VERIF_SEED CFG IDX
            Some("seedof") => println!("{}", run_seed(args[2].parse().unwrap(), &args[1], args[3].parse().unwrap(), args[4].parse().unwrap())),
            Some("distinct") => distinct(&args[1..]),
            _ => {
                eprintln!("usage: sim worker|exec|shrink ...");
                std::process::exit(2)
            }
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("harness error: {}", sim::last_panic());
        std::process::exit(3);
    }
    let _ = std::io::stdout().flush();
}

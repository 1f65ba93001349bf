#!/usr/bin/env python3
"""Driver of the simulator.

  check.py setup                    build everything
  check.py <ID> [quick|thorough]    run one check
  check.py replay <FILE>            reproduce a recorded violation (exit 1 if it reproduces)
  check.py determinism [N]          run N seeds of every property twice, differently divided
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("SIM_REPO_HINT", "/repo")
SIM = os.path.join(V, "sim")
TARGET = os.path.join(V, "target")
OUT = os.path.join(V, "out")
IDS = ["C%02d" % i for i in range(1, 15)] + ["C17"]
# name -> (cargo arguments, profile directory, config number, share of the runs)
CONFIGS = {
    "release": (["--release", "--features", "std_lib"], "release", 0, 0.45),
    "debug": (["--features", "std_lib"], "debug", 1, 0.40),
    "nostd": (["--release"], "release", 2, 0.15),
    # loads and stores of the library are reported to the simulator (trace.rs); for properties of threads
    "traced": (["--release", "--features", "std_lib"], "release", 3, 0.20),
}
TRACED = ["C12"]
TRACE_FLAGS = " --cfg traced -C passes=sancov-module" + "".join(
    " -C llvm-args=-sanitizer-coverage-" + x for x in ("level=1", "trace-loads", "trace-stores"))
# thousands of runs in the quick tier (all configurations together)
QUICK = {
    "C01": 3000, "C02": 3000, "C03": 3500, "C04": 4500, "C05": 3000, "C06": 2500, "C07": 1400,
    "C08": 1600, "C09": 6000, "C10": 8000, "C11": 2500, "C12": 350, "C13": 4000, "C14": 12000, "C17": 8000,
}
THOROUGH = 12
DEADLINE = {"quick": 240, "thorough": 780}
WALL_STUCK = 90


def die(msg):
    print("ERROR " + msg)
    sys.stdout.flush()
    sys.exit(2)


def env():
    e = dict(os.environ)
    e.update(
        RUSTC_BOOTSTRAP="1",
        RUSTFLAGS="-A warnings -A dangerous_implicit_autorefs",
        CARGO_NET_OFFLINE="true",
        RUSTUP_TOOLCHAIN="stable",
        CARGO_TERM_COLOR="never",
        SIM_KNOWN=",".join("%s:%s" % (p, i) for p, i, _ in known_findings()),
    )
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e


def known_findings():
    out = []
    try:
        for line in open(os.path.join(V, "known_findings.txt")):
            w = line.strip().split(" ", 3)
            if len(w) == 4 and w[0] == "finding:":
                out.append((w[1].split("=", 1)[1], w[2].split("=", 1)[1], w[3]))
    except FileNotFoundError:
        pass
    return out


# ---- building ---------------------------------------------------------------------------------

def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(V, "probes.py")]
    for d in (os.path.join(REPO, "src"), SIM):
        for root, dirs, names in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x != "target")
            files += [os.path.join(root, n) for n in sorted(names)]
    for f in files + [os.path.join(REPO, "build.rs")]:
        if os.path.exists(f):
            b = open(f, "rb").read()
            h.update(("%s %d\n" % (f, len(b))).encode())
            h.update(b)
    return h.hexdigest()[:16]


class Build:
    """Binaries of the current working tree, by configuration."""

    def __init__(self, prop=None):
        self.hash = tree_hash()
        self.dir = os.path.join(TARGET, self.hash)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.clean()
        self.bins = {}
        procs = []
        for name, (args, prof, _, _) in CONFIGS.items():
            e = env()
            if name == "traced":
                if prop and prop not in TRACED:
                    continue
                e["RUSTFLAGS"] += TRACE_FLAGS
                e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "0"
            t = os.path.join(self.dir, name)
            log = open(os.path.join(self.dir, name + ".log"), "w")
            cmd = ["cargo", "build", "--offline", "--target-dir", t] + args
            procs.append((name, subprocess.Popen(cmd, cwd=SIM, env=e, stdout=log, stderr=subprocess.STDOUT)))
            self.bins[name] = os.path.join(t, prof, "sim")
        for name, p in procs:
            if p.wait() != 0:
                sys.stdout.write(open(os.path.join(self.dir, name + ".log")).read()[-4000:])
                die("build of configuration %s failed" % name)
        os.utime(self.dir)
        fcntl.flock(self.lock, fcntl.LOCK_UN)

    def clean(self):
        dirs = [d for d in glob.glob(os.path.join(TARGET, "*")) if os.path.isdir(d) and d != self.dir]
        for d in sorted(dirs, key=os.path.getmtime)[:-3]:
            shutil.rmtree(d, ignore_errors=True)

    def shared(self, name, shape, text):
        """The simulator with a client that uses the given probe."""
        t = os.path.join(self.dir, "shared-" + shape)
        os.makedirs(t, exist_ok=True)
        src = os.path.join(t, "probe.rs")
        open(src, "w").write(text)
        e = env()
        e["SHARED_PROBE"] = src
        # a store through a shared reference is undefined behaviour, which an optimiser may delete
        e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
        if shape in "fgh":
            # the library's assertions must not save the client
            e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
            e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        e["RUSTFLAGS"] += ' --cfg shape="%s"' % shape
        r = subprocess.run(
            ["cargo", "build", "--offline", "--features", "std_lib,shared", "--target-dir", t],
            cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            return None
        return os.path.join(t, "debug", "sim")


# ---- running ----------------------------------------------------------------------------------

SIGNAMES = {s.value: s.name for s in signal.Signals}


def death(rc):
    if rc == -signal.SIGPROF:
        return "no progress (30 s of CPU time)"
    return "the process died: %s" % SIGNAMES.get(-rc, rc)


def progress(prefix):
    try:
        b = open(prefix + ".progress", "rb").read(8)
        return struct.unpack("<Q", b)[0] if len(b) == 8 else None
    except FileNotFoundError:
        return None


class Worker:
    def __init__(self, binary, cfg, cfgno, prop, seed, start, count, prefix, deadline):
        self.binary, self.cfg, self.cfgno, self.start, self.count, self.prefix = binary, cfg, cfgno, start, count, prefix
        self.log = open(prefix + ".out", "w+")
        self.err = open(prefix + ".err", "w+")
        self.p = subprocess.Popen(
            [binary, "worker", prop, str(seed), str(cfgno), str(start), str(count), prefix, str(deadline)],
            stdout=self.log, stderr=self.err, env=env(), cwd=os.path.dirname(prefix))
        self.last, self.since = None, time.time()
        self.killed = None

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            now = progress(self.prefix)
            if now != self.last:
                self.last, self.since = now, time.time()
            elif time.time() - self.since > WALL_STUCK:
                self.killed = "stuck"
                self.p.kill()
        return rc

    def lines(self):
        self.log.seek(0)
        return self.log.read().split("\n")


def run_workers(b, prop, seed, tier, bins, scratch, total):
    ws = []
    nproc = max(3, min(8, os.cpu_count() or 8))
    n = {"debug": max(1, (nproc * 3) // 8), "nostd": 1}
    n["traced"] = max(1, nproc // 4) if "traced" in bins else 0
    n["release"] = max(1, nproc - sum(n.values()))
    start_time = time.time()
    for cfg in bins:
        cfgno, share = CONFIGS[cfg][2], CONFIGS[cfg][3]
        share /= sum(CONFIGS[c][3] for c in bins)
        k = n.get(cfg, 1)
        per = max(1, int(total * share / k))
        for w in range(k):
            ws.append(Worker(bins[cfg], cfg, cfgno, prop, seed, w * per, per,
                             os.path.join(scratch, "%s-%d" % (cfg, w)), DEADLINE[tier]))
    grace = None
    while any(w.poll() is None for w in ws):
        time.sleep(0.05)
        bad = any(w.p.poll() not in (None, 0) or any(x.startswith("viol ") for x in w.lines()) for w in ws if w.p.poll() is not None)
        if bad and grace is None:
            grace = time.time() + 40
        if (grace and time.time() > grace) or time.time() - start_time > DEADLINE[tier] + 60:
            for w in ws:
                if w.p.poll() is None:
                    w.killed = "stopped"
                    w.p.kill()
    return ws


def collect(ws):
    """(violations, statistics)"""
    viols, st = [], dict(runs=0, events=0, nontrivial=0, runs_with_fault=0)
    faults, probes, known, samples, by_cfg, chains = {}, {}, {}, [], {}, []
    for w in ws:
        rc = w.p.wait()
        if w.killed == "stopped":
            continue
        if w.killed == "stuck":
            viols.append(dict(cfg=w.cfg, cfgno=w.cfgno, idx=progress(w.prefix), cls="stuck", msg="no thread makes progress", start=w.start, dead=True))
            continue
        if rc < 0:
            if rc == -signal.SIGKILL:
                die("a worker was killed from outside (%s)" % w.prefix)
            w.err.seek(0)
            tail = " ".join(w.err.read()[-300:].split())
            viols.append(dict(cfg=w.cfg, cfgno=w.cfgno, idx=progress(w.prefix), cls="signal %s" % SIGNAMES.get(-rc, -rc),
                              msg=death(rc) + (" (" + tail + ")" if tail else ""), start=w.start, dead=True))
            continue
        if rc != 0:
            w.err.seek(0)
            die("worker failed with %s: %s" % (rc, w.err.read()[-500:]))
        for line in w.lines():
            k, _, rest = line.partition(" ")
            if k == "viol":
                head, cls, msg = rest.split("\t", 2)
                idx, s = head.split()
                viols.append(dict(cfg=w.cfg, cfgno=w.cfgno, idx=int(idx), cls=cls, msg=msg, start=w.start, dead=False, tape=w.prefix + ".tape", run_seed=int(s)))
            elif k == "stat":
                n, v = rest.split()
                st[n] = st.get(n, 0) + int(v)
                if n == "runs":
                    by_cfg[w.cfg] = by_cfg.get(w.cfg, 0) + int(v)
            elif k == "fault":
                n, v = rest.rsplit(" ", 1)
                faults[n] = faults.get(n, 0) + int(v)
            elif k == "probe":
                n, v = rest.rsplit(" ", 1)
                probes[n] = probes.get(n, 0) + int(v)
            elif k == "known":
                n, v, msg = rest.split(" ", 2)
                o = known.get(n, (0, msg))
                known[n] = (o[0] + int(v), o[1])
            elif k == "chain":
                chains.append(rest)
            elif k == "sample":
                if len(samples) < 60:
                    samples.append(("%s: " % w.cfg) + rest)
    viols.sort(key=lambda v: (v["cfgno"], v["idx"] if v["idx"] is not None else 1 << 62))
    st.update(faults=faults, probes=probes, known=known, samples=samples, by_cfg=by_cfg, chains=chains)
    return viols, st


def execute(binary, prop, src, extra=(), timeout=120):
    """One run in a process of its own: (class or None, message, trace, hash)"""
    try:
        r = subprocess.run([binary, "exec", prop, src, "trace"] + list(extra), env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "stuck", "no thread makes progress", [], ""
    lines = r.stdout.split("\n")
    trace = [l for l in lines if l.startswith("[") or l.startswith("VIOLATION ")]
    h = next((l for l in lines if l.startswith("hash ")), "")
    if r.returncode < 0:
        tail = " ".join(r.stderr[-300:].split())
        return "signal %s" % SIGNAMES.get(-r.returncode, -r.returncode), death(r.returncode) + (" (" + tail + ")" if tail else ""), trace, h
    if r.returncode != 0:
        die("exec failed with %d: %s" % (r.returncode, r.stderr[-500:]))
    for l in lines:
        if l.startswith("viol\t"):
            _, c, m = l.split("\t", 2)
            return c, m, trace, h
    return None, "", trace, h


def stream_tape(path):
    tape, trace = [], []
    for l in open(path, errors="replace"):
        if l.startswith("t "):
            tape.append(int(l[2:]))
        elif l.startswith("e "):
            trace.append(l[2:].rstrip("\n"))
    return tape, trace


def write_tape(path, tape):
    open(path, "w").write(" ".join(map(str, tape)))


def shrink_outside(binary, prop, tape, cls, scratch, seconds):
    """Minimises a tape whose run kills the process."""
    end = time.time() + seconds
    f = os.path.join(scratch, "try.tape")

    def bad(t):
        write_tape(f, t)
        return execute(binary, prop, "tape:" + f, timeout=100)[0] == cls

    n = max(1, len(tape) // 2)
    while n >= 1 and time.time() < end:
        i, hit = 0, False
        while i < len(tape) and time.time() < end:
            t = tape[:i] + tape[i + n:]
            if bad(t):
                tape, hit = t, True
            else:
                z = tape[:i] + [0] * len(tape[i:i + n]) + tape[i + n:]
                if z != tape and bad(z):
                    tape, hit = z, True
                i += n
        if n == 1 and not hit:
            break
        n = max(1, n // 2) if n > 1 else (1 if hit else 0)
    return tape


def make_replay(b, binary, prop, v, seed, scratch, probe=None):
    """Minimises, confirms in a fresh process and writes the replay file."""
    tapef = os.path.join(scratch, "v.tape")
    minf = os.path.join(scratch, "min.tape")
    streamf = os.path.join(scratch, "v.stream")
    rec = dict(property=prop, config=v["cfg"], verif_seed=seed, run_index=v["idx"], tree=b.hash, probe=probe)
    if v["dead"]:
        # find the tape by running it again with everything streamed to a file
        r = subprocess.run([binary, "seedof", prop, str(seed), str(v["cfgno"]), str(v["idx"])], env=env(), stdout=subprocess.PIPE, universal_newlines=True)
        v["run_seed"] = int(r.stdout.strip())
        cls, msg, trace, h = execute(binary, prop, "seed:%d" % v["run_seed"], ["stream:" + streamf])
        tape, _ = stream_tape(streamf)
        if cls is None:
            tape = None
        else:
            v["cls"], v["msg"] = cls, msg
            if not cls.startswith("signal") and cls != "stuck":
                v["dead"] = False
    else:
        tape = [int(x) for x in open(v["tape"]).read().split()]
    rec["run_seed"] = v.get("run_seed")
    done = False
    if tape is not None:
        write_tape(tapef, tape)
        cls, msg, trace, h = execute(binary, prop, "tape:" + tapef)
        if cls == v["cls"]:
            if v["dead"]:
                best = shrink_outside(binary, prop, tape, cls, scratch, 10 if cls == "stuck" or "PROF" in cls else 60)
            else:
                try:
                    subprocess.run([binary, "shrink", prop, tapef, cls, "4000", minf], env=env(), timeout=90,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    best = [int(x) for x in open(minf).read().split()]
                except (subprocess.TimeoutExpired, FileNotFoundError, ValueError):
                    best = tape
            write_tape(minf, best)
            extra = ["stream:" + streamf] if v["dead"] else []
            one = execute(binary, prop, "tape:" + minf, extra)
            if one[0] != cls:
                # what was found depends on state that outlives a run: one process per attempt
                best = shrink_outside(binary, prop, tape, cls, scratch, 45)
                write_tape(minf, best)
                one = execute(binary, prop, "tape:" + minf, extra)
            trace = stream_tape(streamf)[1] if v["dead"] else one[2]
            rec.update(kind="tape", tape=best, original_choices=len(tape), cls=one[0], message=one[1], hash=one[3], trace=trace[-400:])
            done = one[0] == cls
    if not done:
        # state carried from one run to the next: replay the runs before it as well
        warm = "warm:%d,%d,%d,%d" % (seed, v["cfgno"], v["start"], v["idx"])
        cls, msg, trace, h = execute(binary, prop, "seed:%d" % v["run_seed"], [warm], timeout=600)
        rec.update(kind="history", warm=[seed, v["cfgno"], v["start"], v["idx"]], cls=cls or v["cls"], message=msg or v["msg"], hash=h,
                   trace=trace[-400:], confirmed=cls is not None)
    os.makedirs(OUT, exist_ok=True)
    tag = "".join(c if c.isalnum() else "-" for c in rec["cls"])[:40]
    path = os.path.join(OUT, "%s-%s-%s.json" % (prop, tag, hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:8]))
    json.dump(rec, open(path, "w"), indent=1)
    return path, rec


def replay(path):
    rec = json.load(open(path))
    b = Build(rec["property"])
    if rec.get("probe"):
        import probes
        shape, text = probes.PROBES[rec["probe"]]
        binary = b.shared(rec["probe"], shape, text)
        if binary is None:
            print("not reproduced: the client program is not admitted")
            return 0
    else:
        binary = b.bins[rec["config"]]
    scratch = os.path.join(OUT, "replay-%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        t = os.path.join(scratch, "tape")
        if rec["kind"] == "tape":
            write_tape(t, rec["tape"])
            streamf = os.path.join(scratch, "stream")
            cls, msg, trace, h = execute(binary, rec["property"], "tape:" + t, ["stream:" + streamf])
            if not trace:
                trace = stream_tape(streamf)[1]
        else:
            cls, msg, trace, h = execute(binary, rec["property"], "seed:%d" % rec["run_seed"], ["warm:%d,%d,%d,%d" % tuple(rec["warm"])], timeout=600)
        for l in trace:
            print(l)
        print("recorded: %s: %s %s" % (rec["cls"], rec["message"], rec["hash"]))
        print("now:      %s: %s %s" % (cls, msg, h))
        if cls is None:
            print("not reproduced")
            return 0
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---- may a client be admitted that breaks the property? -------------------------------------------

def run_probes(b, scratch, prop):
    import probes
    names = [n for n in probes.PROBES if probes.OF[n] == prop]
    if not names:
        return None
    libs = sorted(glob.glob(os.path.join(b.dir, "release", "release", "deps", "libindexing-*.rlib")), key=os.path.getmtime)
    if not libs:
        die("no library to compile the probes against")
    jobs = []
    for name in names:
        shape, text = probes.PROBES[name]
        for what, t in (("probe", text), ("control", probes.control(name))):
            if t is None:
                continue
            f = os.path.join(scratch, "%s-%s.rs" % (name, what))
            open(f, "w").write(t)
            jobs.append((name, what, ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p", "--emit", "metadata", "-A", "warnings",
                                      "-A", "dangerous_implicit_autorefs", "--extern", "indexing=" + libs[-1], "-o", f + ".rmeta", f]))
    res, running = {}, []
    jobs.reverse()
    while jobs or running:
        while jobs and len(running) < 8:
            name, what, cmd = jobs.pop()
            running.append((name, what, subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        name, what, p = running.pop(0)
        res[(name, what)] = p.wait() == 0
    compiled = [n for n in names if res[(n, "probe")]]
    return dict(tried=len(names), controls=sum(1 for k in res if k[1] == "control"),
                controls_compiling=sum(1 for k, ok in res.items() if k[1] == "control" and ok), compiled=compiled)


# ---- one check --------------------------------------------------------------------------------

def props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}


RULES = {
    "C01": "seeded histories of 1-4 clients deriving particles and growing, crashing and restarting one container; non-trivial: a fault fired or two clients interleaved",
    "C02": "as C01, weighted towards growth, failing growth, panicking callbacks and abandoned scopes; non-trivial: a fault fired or two clients interleaved",
    "C03": "as C01, weighted towards vetting and cursor moves with offsets up to usize::MAX; non-trivial: a fault fired or two clients interleaved",
    "C04": "seeded schedules of workers splitting, stealing, stepping, subdividing, iterating, crashing and rejoining; non-trivial: a piece was stolen, abandoned by a crash or handed back",
    "C05": "as C01, weighted towards reads, writes, slices, swaps and rotations; non-trivial: a fault fired or two clients interleaved",
    "C06": "scans with predicates answered by the tape, nested operations and panics; non-trivial: a fault fired or an answer was untrue on repetition",
    "C07": "sorts and heapify of 0-2000 (rarely 65500-68500) elements in many shapes under comparisons that panic at any call, lie, refuse or are stuck, then re-run; non-trivial: a fault fired or a re-run followed one",
    "C08": "as C07, judged on the fault-free phases: order, stability, heap property and number of comparisons",
    "C09": "merges of 1-1300 elements under panicking and contradictory comparisons; non-trivial: a fault fired or both runs were non-empty",
    "C10": "searches over 0-huge slices, answers logged; non-trivial: a fault fired or more than two comparisons",
    "C11": "twins driven together and lock-step sorts under faults; non-trivial: a fault fired or more than one twin was used",
    "C12": "threads with drawn programs on disjoint parts (or readers of one container), pre-empted by the seeded scheduler at comparisons and callbacks and, in the traced configuration, at any load or store of the library; non-trivial: more than one element divided",
    "C13": "as C01 for pointers, pointer ranges and pointer slices; non-trivial: a fault fired or two clients interleaved",
    "C17": "histories of clients sharing collections keyed by particles; non-trivial: two or more clients took turns",
    "C14": "pairwise traversals with a panic at the k-th pair; non-trivial: a fault fired or two or more pairs",
}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    b = Build(prop)
    tb = time.time()
    scratch = os.path.join(OUT, "run-%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return check_in(prop, tier, seed, b, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_in(prop, tier, seed, b, scratch, t0, tb):
    listed = [(i, d) for p, i, d in known_findings() if p == prop]
    total = QUICK[prop] * 1000 * (THOROUGH if tier == "thorough" else 1)
    total = int(float(os.environ.get("SIM_SCALE", "1")) * total)
    probe_stat, found = None, None
    probe_stat = run_probes(b, scratch, prop)
    if probe_stat:
        import probes
        for name in probe_stat["compiled"][:10]:
            shape, text = probes.PROBES[name]
            binary = b.shared(name, shape, text)
            if binary is None:
                die("probe %s compiles alone but not in the simulator" % name)
            ws = run_workers(b, prop, seed, tier, {"debug": binary}, scratch, 20000)
            viols, _ = collect(ws)
            if viols:
                found = (binary, viols[0], name)
                break
            print("NOTE probe %s compiles, but no harm from it was found" % name)
    viols, st = [], None
    if found is None:
        ws = run_workers(b, prop, seed, tier, b.bins, scratch, total)
        viols, st = collect(ws)
        if viols:
            found = (b.bins[viols[0]["cfg"]], viols[0], None)
    wall_sim = time.time() - tb
    path = None
    if found:
        path, rec = make_replay(b, found[0], prop, found[1], seed, scratch, found[2])
    if st is None:
        st = dict(runs=0, events=0, nontrivial=0, runs_with_fault=0, faults={}, probes={}, known={}, samples=[], by_cfg={}, chains=[])

    def distinct(ext):
        fs = [f for f in glob.glob(os.path.join(scratch, "*." + ext))]
        r = subprocess.run([b.bins["release"], "distinct"] + fs, stdout=subprocess.PIPE, universal_newlines=True)
        return int(r.stdout.strip() or 0)

    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=st["runs"],
            distinct_nontrivial=distinct("hashes"),
            rule=RULES[prop] + ". Distinct: by the hash of the complete event log (schedule, faults, answers, outcomes).",
            samples=st["samples"],
            runs_per_configuration=st["by_cfg"],
            runs_and_seeds_per_hour=int(st["runs"] / max(wall_sim, 0.001) * 3600),
            simulated_time=dict(unit="events (the library has no clock; logical time is the event sequence number)", events=st["events"]),
            runs_with_at_least_one_fault=st["runs_with_fault"],
            nontrivial_runs=st["nontrivial"],
            faults_injected=st["faults"],
            rare_conditions_reached=st["probes"],
            distinct_interleavings=dict(measure="hash of the event log, non-trivial runs", count=distinct("hashes")),
            distinct_states=dict(measure="hash of the abstract state recorded at step boundaries (up to 2M kept per worker)", count=distinct("states")),
            components=dict(
                real="all of /repo/src compiled from the working tree (debug with assertions, release, no_std), std Vec and slices, operating-system threads (C12)",
                simulated="thread scheduler (baton), global allocator for Vec<Tok>, growable storage SimStore, elements and their comparison, predicates and callbacks, clients"),
            determinism=dict(chain_hashes=sorted(st["chains"])),
        ),
        assumptions=[
            "sampling: schedules and faults beyond those drawn from this seed are not covered",
            "threads are released one at a time (sequentially consistent interleavings, down to single memory accesses in the traced configuration; no weak-memory effects)",
            "elements, comparators and storage types are the simulator's; user storage keeps the documented contract of the unsafe traits",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(viols) if not (found and found[2]) else 1,
    )
    if probe_stat:
        ev["coverage"]["bent_client_probes"] = probe_stat
    if listed:
        ev["coverage"]["known_findings_seen"] = {i: st["known"].get(i, (0, ""))[0] for i, _ in listed}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", prop + ".json"))
    for i, d in listed:
        print("KNOWN-FINDING: property=%s %s: %s (%d times in this run)" % (prop, i, d, st["known"].get(i, (0, ""))[0]))
    print("%s %s seed %d: %d runs, %d events, %d with faults, %.1f s (build %.1f s)" % (
        prop, tier, seed, st["runs"], st["events"], st["runs_with_fault"], time.time() - t0, tb - t0))
    if found:
        print("%s: %s" % (rec["cls"], rec["message"]))
        print("config %s, run %s, seed %s, %s" % (rec["config"], rec["run_index"], rec["run_seed"],
              "%d choices after minimisation (%d before)" % (len(rec["tape"]), rec["original_choices"]) if rec["kind"] == "tape" else "replayed with the runs before it"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if st["runs"] < total * 0.9:
        print("NOTE stopped by the time limit after %d of %d runs" % (st["runs"], total))
    if st["runs"] == 0:
        die("nothing was run")
    return 0


def determinism(n):
    """The same seeds in one process, in eight, and again: the same event logs."""
    b = Build()
    scratch = os.path.join(OUT, "det-%d" % os.getpid())
    os.makedirs(scratch)
    bad = 0
    try:
        for prop in IDS:
            for cfg, binary in b.bins.items():
                if cfg == "traced" and prop not in TRACED:
                    continue
                no = CONFIGS[cfg][2]

                def hashes(parts):
                    ws, per = [], n // parts
                    for i in range(parts):
                        ws.append(Worker(binary, cfg, no, prop, 7, i * per, per, os.path.join(scratch, "d%d" % i), 600))
                    for w in ws:
                        w.p.wait()
                    return b"".join(open(w.prefix + ".hashes", "rb").read() for w in ws)

                one, eight, again = hashes(1), hashes(8), hashes(8)
                ok = one == eight == again and len(one) > 0
                bad += not ok
                print(prop, cfg, len(one) // 8, "event logs", "identical" if ok else "DIFFER")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    if a[:1] == ["setup"]:
        Build()
        print("built")
        return 0
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["determinism"]:
        return determinism(int(a[1]) if len(a) > 1 else 4000)
    if a and a[0] in IDS:
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier in DEADLINE:
            return check(a[0], tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py Cnn — decides one property on the current tree of /repo by running it under monitors.

Exit 0: held on everything that ran.  1: violation (VIOLATION line).  2: no answer (build error, harness error)."""
import concurrent.futures, glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TRIPLE = "x86_64-unknown-linux-gnu"
T0 = time.time()
QUICK = TIER == "quick"


def say(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------- builds
def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in (REPO, os.path.join(HERE, "harness"), os.path.join(HERE, "attacks")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(files):
        with open(f, "rb") as fh:
            b = fh.read()
        h.update(f.encode() + b"\0" + str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()[:16]


HASH = tree_hash()


def env_for(kind):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if kind == "plain":
        e["RUSTFLAGS"] = "-Zub-checks=yes"
    if kind == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address --cfg plain_alloc"
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1"
    if kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread --cfg plain_alloc"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    if kind == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-provenance-gc=100000"
    return e


def target_dir(kind):
    return os.path.join(BUILD, f"{kind}-{HASH}")


def run_quiet(cmd, env, timeout):
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def build(kind):
    """Builds the harness against /repo as it is now; the directory is named after the content of both."""
    os.makedirs(BUILD, exist_ok=True)
    for d in glob.glob(os.path.join(BUILD, kind + "-*")):
        if os.path.basename(d) != f"{kind}-{HASH}":
            shutil.rmtree(d, ignore_errors=True)
    td = target_dir(kind)
    cmd = ["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", td]
    exe = os.path.join(td, "release", "mon")
    if kind == "plain":
        cmd[cmd.index("--release")] = "--profile=plain"
        exe = os.path.join(td, "plain", "mon")
    if kind == "asan":
        cmd += ["--target", TRIPLE]
    if kind == "tsan":
        cmd += ["--target", TRIPLE, "-Zbuild-std"]
    if kind in ("asan", "tsan"):
        exe = os.path.join(td, TRIPLE, "release", "mon")
    if kind == "miri":
        # compiles, and runs nothing to speak of
        cmd = miri_cmd() + ["vecs", "C11", "--hist", "0", "--threads", "1"]
        exe = None
    t = time.time()
    for attempt in (1, 2):
        try:
            rc, out = run_quiet(cmd, env_for(kind), 800)
        except subprocess.TimeoutExpired:
            raise NoAnswer(f"building the {kind} harness took too long")
        if rc == 0:
            break
    if rc != 0:
        raise NoAnswer(f"the {kind} harness does not build against /repo:\n" + "\n".join(out.splitlines()[-40:]))
    say(f"built {kind} in {time.time() - t:.1f} s")
    return exe


def miri_cmd():
    return ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", target_dir("miri"), "--"]


# ---------------------------------------------------------------- runs
def limits():
    os.setpgid(0, 0)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_mem():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


class Run:
    """One process of the harness."""

    def __init__(self, kind, cmd, args, timeout, prop, env=None):
        self.kind, self.cmd, self.args, self.timeout, self.prop = kind, cmd, [str(a) for a in args], timeout, prop
        self.extra = env or {}

    def argv(self, more=()):
        base = miri_cmd() if self.kind == "miri" else [EXE[self.kind]]
        return base + [self.cmd, self.prop, "--seed", str(SEED)] + self.args + list(more)

    def start(self, i):
        self.prog = os.path.join(BUILD, f"progress.{os.getpid()}.{i}")
        self.out = os.path.join(BUILD, f"out.{os.getpid()}.{i}")
        e = env_for(self.kind)
        e.update(self.extra)
        self.t = time.time()
        self.p = subprocess.Popen(
            self.argv(["--progress", self.prog]), cwd=os.path.join(HERE, "harness"), env=e, stdin=subprocess.DEVNULL,
            stdout=open(self.out, "wb"), stderr=subprocess.STDOUT, preexec_fn=limits_mem if self.kind in ("native", "plain") else limits)

    def wait(self):
        self.timed_out = False
        try:
            self.rc = self.p.wait(timeout=max(1, self.timeout - (time.time() - self.t)))
        except subprocess.TimeoutExpired:
            self.timed_out = True
            self.kill()
            self.rc = self.p.wait()
        self.secs = time.time() - self.t
        with open(self.out, errors="replace") as f:
            self.text = f.read()
        self.indices = []
        try:
            b = open(self.prog, "rb").read()
            self.indices = [x for x in struct.unpack(f"<{len(b) // 8}Q", b[: len(b) // 8 * 8]) if x != 2**64 - 1]
        except OSError:
            pass
        for f in (self.prog, self.out):
            try:
                os.unlink(f)
            except OSError:
                pass

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def line(self, tag):
        return [l[len(tag) + 1:] for l in self.text.splitlines() if l.startswith(tag + " ")]

    def stats(self):
        l = self.line("MON-STATS")
        return json.loads(l[-1]) if l else None


EXE = {}
REPORT = ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "error: Undefined Behavior", "error: abnormal termination",
          "error: the evaluated program", "runtime error:")


def excerpt(text):
    ls = text.splitlines()
    for i, l in enumerate(ls):
        if any(r in l for r in REPORT) or "panicked at" in l or "memory allocation of" in l:
            return "\n".join(ls[i: i + 40])
    return "\n".join(ls[-30:])


def headline(text):
    for l in text.splitlines():
        if any(r in l for r in REPORT):
            return l.strip()[:300]
    return ""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def judge(r, prop, ev):
    """What one finished process says. Raises Violation or NoAnswer."""
    text = r.text
    name = f"{r.kind} {r.cmd}"
    cmdline = " ".join(r.argv())
    st = r.stats()
    if st:
        ev.add(name, r, st)
    for k in r.line("MON-KNOWN"):
        ev.known.add(k)
    for k in r.line("MON-FOREIGN"):
        ev.foreign.append(f"{name}: {k[:300]}")
    v = r.line("MON-VIOLATION")
    if v:
        d = json.loads(v[-1])
        raise Violation(f"{name}: history {d['idx']} ({d['shape']}): {d['what']}", replay_text(r, [d["idx"]], v[-1]))
    h = r.line("MON-HANG")
    if h:
        d = json.loads(h[-1])
        if r.cmd == "stress" and "--single" not in r.args:
            ev.notes.append(f"{name}: no progress at history {d['idx']}; multi-component queries may wait for each other, inconclusive")
            return
        raise Violation(f"{name}: history {d['idx']}, step {d['step']}: the call does not return" + (" (asleep)" if d.get("asleep") else ""), replay_text(r, [d["idx"]], h[-1]))
    if r.rc == 0 and st:
        return
    if r.timed_out:
        if r.kind in ("miri", "tsan", "asan") and not headline(text):
            ev.notes.append(f"{name}: stopped after {r.secs:.0f} s without a report")
            return
        raise NoAnswer(f"{name} did not finish in {r.timeout} s")
    if r.line("MON-HARNESS"):
        raise NoAnswer(f"{name}: harness error: {r.line('MON-HARNESS')[0]}")
    if "error: unsupported operation" in text:
        raise NoAnswer(f"{name}: Miri cannot run this:\n{excerpt(text)}")
    if r.kind == "miri" and not headline(text):
        raise NoAnswer(f"{name}: Miri failed (exit {r.rc}):\n{excerpt(text)}")
    if r.rc == -signal.SIGKILL:
        raise NoAnswer(f"{name} was killed (out of memory?)")
    if r.rc in (2, 3, 101) and not headline(text):
        raise NoAnswer(f"{name}: exit {r.rc}:\n{excerpt(text)}")
    # a crash, or a report of a sanitizer: find the history
    how = headline(text) or (f"killed by {signal.Signals(-r.rc).name}" if r.rc < 0 else f"exit {r.rc}")
    found = []
    for i in sorted(set(r.indices))[:16]:
        q = Run(r.kind, r.cmd, [a for a in r.args], 240, r.prop, r.extra)
        q.args = strip(q.args) + ["--only", str(i)]
        q.start(90)
        q.wait()
        if q.line("MON-VIOLATION"):
            d = json.loads(q.line("MON-VIOLATION")[-1])
            raise Violation(f"{name}: history {i}: {d['what']} (the run: {how})", replay_text(r, [i], q.text))
        if q.rc not in (0,) and not q.timed_out:
            found = [i]
            text = q.text
            break
    raise Violation(f"{name}: {how}" + (f" in history {found[0]}" if found else f"; one of the histories {sorted(set(r.indices))}"), replay_text(r, found or r.indices, excerpt(text)))


def strip(args):
    out, skip = [], False
    for a in args:
        if skip:
            skip = False
        elif a in ("--start", "--hist", "--secs", "--threads"):
            skip = True
        else:
            out.append(a)
    return out


def replay_text(r, indices, report):
    e = env_for(r.kind)
    keys = ("RUSTFLAGS", "MIRIFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS")
    env = " ".join(f"{k}='{e[k]}'" for k in keys if k in e and not (k == "RUSTFLAGS"))
    t = [f"# build {r.kind} with: python3 {HERE}/check.py --build {r.kind}", f"# whole run:", f"cd {HERE}/harness; {env} " + " ".join(r.argv()), "# the histories concerned:"]
    for i in list(indices)[:8]:
        q = Run(r.kind, r.cmd, strip(r.args) + ["--only", str(i)], 0, r.prop, r.extra)
        t.append(f"cd {HERE}/harness; {env} " + " ".join(q.argv(["--verbose"])))
    return "\n".join(t) + "\n\n# report\n" + report + "\n"


class Evidence:
    def __init__(self):
        self.runs, self.known, self.foreign, self.notes = [], set(), [], []
        self.samples = []
        self.evals = self.distinct = 0
        self.attacks = None
        self.sums = {}

    def add(self, name, r, st):
        self.evals += st["histories"]
        self.distinct += st["distinct_traces"]
        d = dict(workload=name, args=" ".join(r.args), wall_s=round(r.secs, 1), histories=st["histories"], steps=st["steps"], distinct=st["distinct_traces"], shapes=st["shapes"])
        obs = {}
        for part in ("extra", "stat", "vec"):
            if st.get(part):
                obs.update({k: v for k, v in st[part].items() if v})
        d["observed"] = obs
        d["violations_of_other_properties"] = st["foreign"]
        self.runs.append(d)
        if len(self.samples) < 8:
            self.samples += [f"{name}: {s}" for s in st["samples"][:2]]

    def merged(self):
        out = {}
        for d in self.runs:
            o = out.setdefault(d["workload"], dict(processes=0, histories=0, steps=0, distinct=0, wall_s=0.0, shapes={}, observed={}, violations_of_other_properties=0, args=[]))
            o["processes"] += 1
            for k in ("histories", "steps", "distinct", "wall_s", "violations_of_other_properties"):
                o[k] = round(o[k] + d[k], 1)
            if d["args"] not in o["args"] and len(o["args"]) < 4:
                o["args"].append(d["args"])
            for k in ("shapes", "observed"):
                for a, b in d[k].items():
                    big = a.startswith("max") or a in ("arity", "darity", "archs")
                    o[k][a] = max(o[k].get(a, 0), b) if big else round(o[k].get(a, 0) + b, 3) if isinstance(b, (int, float)) else b
        return out


# ---------------------------------------------------------------- what is run for each property
def native(cmd, *args, timeout=600):
    return ("native", cmd, list(args), timeout)


def world(n, secs):
    return native("world", "--hist", n, "--secs", secs, "--threads", 8)


def spread(kind, cmd, n, per, secs, *args):
    """n processes over consecutive blocks of `per` histories."""
    return [(kind, cmd, ["--start", i * per, "--hist", per, "--secs", secs, "--threads", 1, *args], secs + 240) for i in range(n)]


def plan(prop):
    """Lists of groups; the processes of one group run at the same time."""
    q = QUICK
    w = lambda n: [world(n if q else n * 400, 30 if q else 420)]
    if prop == "C01":
        g = [w(16000), [native("longrun", "--spawns", 1 << 25 if q else 1 << 29, "--hist", 16, "--threads", 8)]]
        if not q:
            g.append([native("generations", "--bits", 32, "--hist", 1, "--threads", 1, timeout=800)])
        return g
    grid = [native("grid", "--hist", 60000 if q else 2000000, "--secs", 20 if q else 60, "--threads", 8)]
    if prop in ("C02", "C03", "C04", "C09"):
        return [w(20000), grid]
    if prop in ("C08", "C10", "C13", "C14"):
        return [w(20000)]
    if prop == "C05":
        return [w(18000), [native("tour", "--hist", 20000 if q else 400000, "--secs", 60)], grid]
    if prop == "C06":
        return [
            w(10000),
            [native("tour", "--hist", 5000 if q else 100000, "--secs", 60)],
            [("asan", "world", ["--hist", 2000 if q else 200000, "--secs", 25 if q else 240, "--threads", 8], 500)],
            [("asan", "tour", ["--hist", 5000, "--secs", 15 if q else 60, "--threads", 8], 300)],
            [("asan", "vecs", ["--hist", 3000 if q else 60000, "--secs", 10 if q else 60, "--threads", 8], 300)],
            spread("miri", "tour", 8, 12 if q else 400, 90 if q else 240),
            grid,
            [("asan", "grid", ["--hist", 6000 if q else 200000, "--secs", 10 if q else 60, "--threads", 8], 300)],
            spread("miri", "grid", 8, 8 if q else 200, 30 if q else 120),
            [native("refused", "--hist", 1500 if q else 40000, "--secs", 15 if q else 100, "--threads", 8)],
        ] + ([] if q else [spread("miri", "world", 8, 400, 240, "--tiny")])
    if prop == "C07":
        g = [
            [native("locks", "--hist", 2000 if q else 100000, "--secs", 30 if q else 400, "--threads", 3)],
            [native("stress", "--workers", 8, "--rounds", 400, "--hist", 400 if q else 20000, "--secs", 20 if q else 200, "--threads", 1, "--single")],
            [native("stress", "--workers", 8, "--rounds", 400, "--hist", 600 if q else 20000, "--secs", 20 if q else 200, "--threads", 1)],
            spread("miri", "stress", 8, 3 if q else 60, 30 if q else 200, "--tiny", "--workers", 3, "--rounds", 6),
        ]
        if not q:
            g += [
                [("tsan", "stress", ["--workers", 8, "--rounds", 400, "--hist", 4000, "--secs", 150, "--threads", 1], 400)],
                [("tsan", "locks", ["--hist", 20000, "--secs", 100, "--threads", 3], 400)],
            ]
        return g
    if prop == "C11":
        return [[native("vecs", "--hist", 60000 if q else 10**7, "--secs", 25 if q else 400, "--threads", 8)]]
    if prop == "C12":
        return [
            [native("vecs", "--hist", 40000 if q else 10**7, "--secs", 20 if q else 200, "--threads", 8)],
            [("asan", "vecs", ["--hist", 10000 if q else 10**6, "--secs", 15 if q else 150, "--threads", 8], 400)],
            [native("tour", "--hist", 2000, "--threads", 8)],
            [native("refused", "--vecs", "--hist", 1000 if q else 40000, "--secs", 10 if q else 80, "--threads", 8)],
            spread("miri", "tour", 8, 6 if q else 200, 40 if q else 200),
        ] + ([] if q else [spread("miri", "vecs", 8, 1000, 200, "--tiny")])
    if prop == "C15":
        return [w(14000), [native("cycles", "--hist", 800 if q else 40000, "--secs", 25 if q else 300, "--threads", 8)]]
    if prop == "C16":
        n = 2000 if q else 60000
        return [w(6000)] + [[native("twins", "--hist", n, "--threads", t, timeout=800)] for t in (8, 5)]
    raise NoAnswer("unknown property " + prop)


ASSUME = ["the harness judges by what calls return and what memory they touch, through the crates' public interface only",
          "most runs have debug assertions and overflow checks on; native workloads are repeated at a third of the size with both off at optimisation level 3; optimisation level 2 (sanitizers), MIR interpretation (Miri)"]
RULES = {
    "world": "a history is a random sequence of operations on one world, drawn from the profile of the property (shape); its trace hashes every step, operand, handle and value; two histories are distinct when their traces differ, and every one counted executed at least one structural step and was compared with the model",
    "vecs": "a history is a random sequence of operations on up to several untyped vectors of one element type, mirrored by typed vectors; distinct by the hash of all operations and operands",
    "tour": "a tour is a fixed-order walk over the interface for one pair of component types or one run-time layout with random sizes and values; distinct by type pair and number of values made, dropped and read",
    "locks": "a schedule obtains and releases queries of up to six threads one event at a time; distinct by the hash of its events and outcomes (obtained, waiting, woken)",
    "stress": "threads run queries freely on one world; distinct by the order in which the threads obtained their queries",
    "refused": "a history is run in a process of its own, once undisturbed and once with the allocator refusing one request of the library, or all from one on; distinct by how the process ended and which request was refused",
    "grid": "a grid history is a short random sequence of operations on components of up to nine types out of a grid of sizes, alignments and with or without destructor; distinct by types, operations and values made, dropped and read",
    "twins": "a history is run twice, and once more interleaved with another world's; distinct by the hash of all handles, results and iteration orders",
    "cycles": "a population-preserving cycle repeated with memory measured at doublings; distinct by the hash of its operations",
    "longrun": "spawn/despawn runs over few slots with all handles of a window compared",
    "generations": "one slot reused 2^bits times, each generation compared with the one before",
}


def plainly(groups):
    """The native workloads again, on other histories and fewer, against the libraries without debug assertions."""
    out = []
    for g in groups:
        out.append(g)
        more = []
        for kind, cmd, args, timeout in g:
            if kind == "native" and cmd in ("world", "vecs", "grid", "locks", "cycles", "refused") or cmd == "stress" and "--single" in args:
                a = list(args)
                n, t = a.index("--hist") + 1, a.index("--secs") + 1
                a[n:n + 1] = [a[n] // 3, "--start", a[n]]
                t = a.index("--secs") + 1
                a[t] = max(5, a[t] // 3)
                more.append(("plain", cmd, a, timeout))
        if more:
            out.append(more)
    return out


def twin_digests(runs, prop):
    a, b = [r.stats() for r in runs]
    if not a or not b or a["histories"] != b["histories"] or a["digest"] == b["digest"]:
        return
    r = runs[0]
    for i in range(min(a["histories"], 400)):
        ds = []
        for _ in range(2):
            q = Run(r.kind, r.cmd, strip(r.args) + ["--only", str(i)], 60, prop)
            q.start(91)
            q.wait()
            ds.append((q.stats() or {}).get("digest"))
        if ds[0] != ds[1]:
            raise Violation(f"native twins: history {i} gives different handles, results or iteration orders in two processes ({ds[0]} and {ds[1]})", replay_text(r, [i], "\n".join(r.line("MON-STATS"))))
    raise Violation(f"native twins: two processes running the same {a['histories']} histories differ (digests {a['digest']} and {b['digest']})", replay_text(r, [], "\n".join(x.text for x in runs)))


def attacks(ev):
    """Safe programs that would have undefined behaviour if the compiler let them through. Those it does
    let through are run under Miri, which judges; those it refuses cannot do harm."""
    td = target_dir("attacks")
    for d in glob.glob(os.path.join(BUILD, "attacks-*")):
        if d != td:
            shutil.rmtree(d, ignore_errors=True)
    cwd = os.path.join(HERE, "attacks")
    t = time.time()
    base = ["cargo", "+nightly"]
    p = subprocess.run(base + ["check", "--offline", "--keep-going", "--bins", "--target-dir", td, "--message-format", "json"], cwd=cwd, env=env_for("native"),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300, errors="replace")
    accepted, refused, lib = [], {}, False
    for l in p.stdout.splitlines():
        d = json.loads(l) if l.startswith("{") else {}
        target = d.get("target", {})
        if d.get("reason") == "compiler-artifact" and target["name"] == "attacks" and "lib" in target["kind"]:
            lib = True
        if "bin" not in target.get("kind", []):
            continue
        if d["reason"] == "compiler-artifact":
            accepted.append(target["name"])
        elif d["reason"] == "compiler-message" and d["message"]["level"] == "error" and d["message"].get("code"):
            refused.setdefault(target["name"], set()).add(d["message"]["code"]["code"])
    if not lib:
        # written for the interface as it was; without it there is nothing to attack
        ev.notes.append("attacks: what the attacks share does not build against /repo, none was tried")
        return
    accepted = sorted(set(accepted) - set(refused))
    env = env_for("miri")
    env["RUSTFLAGS"] = "-Awarnings"
    env["MIRIFLAGS"] += " -Zmiri-permissive-provenance" + ("" if QUICK else " -Zmiri-many-seeds=0..16")
    outcome, steps = {}, 0
    todo, live = list(accepted), []
    try:
        while todo or live:
            while todo and len(live) < 8:
                name = todo.pop(0)
                out = open(os.path.join(BUILD, f"attack.{os.getpid()}.{name}"), "w+", errors="replace")
                live.append((name, out, time.time(), subprocess.Popen(base + ["miri", "run", "--offline", "--target-dir", td, "--bin", name], cwd=cwd, env=env,
                             stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT, preexec_fn=limits)))
            time.sleep(0.05)
            for x in list(live):
                name, out, t1, q = x
                late = time.time() - t1 > (60 if QUICK else 150)
                if q.poll() is None and not late:
                    continue
                if q.poll() is None:
                    os.killpg(q.pid, signal.SIGKILL)
                    q.wait()
                live.remove(x)
                out.seek(0)
                text = out.read()
                out.close()
                os.unlink(out.name)
                how = "runs to its end" if q.returncode == 0 else "does not end" if late else "stops for good (deadlock)" if "deadlock" in text else "panics" if "panicked at" in text else "stops: " + headline(text)
                if "error: Undefined Behavior" in text:
                    src = open(os.path.join(cwd, "src", "bin", name + ".rs")).read()
                    raise Violation(f"miri attack: the safe program {name} is accepted by the compiler and has undefined behaviour: {headline(text)}",
                                    f"cd {cwd}; MIRIFLAGS='{env['MIRIFLAGS']}' {' '.join(base)} miri run --offline --bin {name}\n\n{src}\n# report\n" + excerpt(text) + "\n")
                outcome[name] = how
    finally:
        for name, out, _, q in live:
            if q.poll() is None:
                os.killpg(q.pid, signal.SIGKILL)
                q.wait()
            out.close()
            os.unlink(out.name)
    kinds = {}
    for c in refused.values():
        for x in c:
            kinds[x] = kinds.get(x, 0) + 1
    ev.attacks = dict(programs=len(refused) + len(accepted), refused_by_the_compiler=len(refused), refusals_by_error=kinds, run_under_miri=outcome, wall_s=round(time.time() - t, 1))
    ev.evals += len(outcome)
    ev.distinct += len(outcome)


def known_findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]


def check(prop):
    ev = Evidence()
    groups = [[Run(k, c, a, t, prop) for k, c, a, t in g] for g in plainly(plan(prop))]
    finished, vio = [], None
    try:
        kinds = list(dict.fromkeys(r.kind for g in groups for r in g))
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for k, exe in zip(kinds, ex.map(build, kinds)):
                EXE[k] = exe
        if prop == "C06":
            attacks(ev)
        for g in groups:
            for i, r in enumerate(g):
                r.start(i)
            for r in g:
                r.wait()
            finished += g
            # the clearest report first
            g = sorted(g, key=lambda r: not r.line("MON-VIOLATION"))
            for r in g:
                judge(r, prop, ev)
        if prop == "C16":
            twin_digests([r for r in finished if r.cmd == "twins"], prop)
        if ev.evals == 0:
            raise NoAnswer("nothing ran")
        known = [k for k in known_findings() if k["property"] == prop and k["status"] == "open"]
        new = [k for k in ev.known if not any(k == f["report"] for f in known)]
        if new:
            raise Violation(new[0], replay_text(finished[0], [], "\n".join(new)))
    except Violation as v:
        vio = v
    finally:
        for g in groups:
            for r in g:
                if hasattr(r, "p") and r.p.poll() is None:
                    r.kill()
    m = ev.merged()
    cov = dict(
        evaluations=ev.evals,
        distinct_nontrivial=ev.distinct,
        rule="; ".join(f"{c}: {RULES[c]}" for c in dict.fromkeys(r.cmd for g in groups for r in g)),
        samples=ev.samples or ["none finished"],
        workloads=m,
        known_findings_seen=sorted(ev.known),
        violations_of_other_properties=ev.foreign[:10],
        notes=ev.notes,
        tree=HASH,
    )
    if ev.attacks:
        cov["attacks"] = ev.attacks
        say(f"attacks: {ev.attacks['programs']} programs, {ev.attacks['refused_by_the_compiler']} refused by the compiler, {len(ev.attacks['run_under_miri'])} run, in {ev.attacks['wall_s']} s")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level="exploration", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - T0, 1), violations=int(vio is not None)), f, indent=1)
    for name, o in m.items():
        say(f"{name}: {o['histories']} histories, {o['distinct']} distinct, {o['steps']} steps in {o['wall_s']} s")
    for n in ev.notes + ev.foreign[:3]:
        say("note:", n)
    if vio:
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{HASH}.txt")
        with open(path, "w") as f:
            f.write(vio.what + "\n\n" + vio.replay)
        say(vio.what)
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    for k in sorted(ev.known):
        say(f"KNOWN-FINDING: property={prop} {k}")
    return 0


def main():
    try:
        if sys.argv[1] == "--build":
            for k in sys.argv[2:] or ["native"]:
                build(k)
            return 0
        return check(sys.argv[1])
    except NoAnswer as e:
        say(f"NO ANSWER: {e}")
        return 2


sys.exit(main())

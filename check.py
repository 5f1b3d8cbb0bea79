#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree, searches seeds for violations of one property,
minimises and stores what it finds, and writes the evidence. See DESIGN.md.

  check.py build                        build both profiles
  check.py check C05 [--tier quick|thorough] [--seed N] [--runs N] [--secs N]
  check.py replay FILE                  re-execute a stored violation exactly (exit 1: it violates)
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = "/repo"
TARGET = os.path.join(SIM, "target")
REPLAYS = os.path.join(HERE, "replays")
PROFILES = ("release", "checked")
JOBS = 8
CPU_HANG = 40  # seconds of CPU time one run may take; an ordinary one takes milliseconds
IDLE_POLLS = 200  # consecutive polls, 0.1 s apart, in which a process used no CPU time: it waits for ever
THREADED = ("C08", "C12")

# property: (runs quick, runs thorough, runs per process)
BUDGET = {
    "C01": (600_000, 14_000_000, 10_000),
    "C02": (500_000, 10_000_000, 10_000),
    "C03": (500_000, 10_000_000, 10_000),
    "C04": (700_000, 16_000_000, 10_000),
    "C05": (600_000, 14_000_000, 10_000),
    "C06": (700_000, 16_000_000, 10_000),
    "C07": (500_000, 12_000_000, 10_000),
    "C08": (40_000, 420_000, 250),
    "C09": (900_000, 20_000_000, 10_000),
    "C10": (600_000, 12_000_000, 10_000),
    "C11": (400_000, 8_000_000, 10_000),
    "C12": (40_000, 600_000, 250),
}
WALL = {"quick": 240, "thorough": 560}

RULE = (
    "Each case is one simulated run, a function of (property, seed, run number): it draws storage types, depths, "
    "an operation mix, callers, a schedule and faults, and executes them against the real library. A run is "
    "non-trivial if "
)
NONTRIV = {
    "threaded": "a preemption or stall fired inside an operation and the baton changed hands more often than there are callers.",
    "serial": "at least four operations produced results and either a fault fired (or an operation ran with the heap exhausted) or several clients took turns.",
}
REAL = {
    "real code": [
        "all of morton-index: indices, storages, conversions, dimensions, bit access, iterators, naming, comparison, hashing",
        "std collections, formatting, panics and unwinding; OS threads and machine code (preempted by single-stepping)",
    ],
    "simulated": [
        "heap: SimAlloc, a global allocator that fails on command, fills and audits memory, on top of the system allocator",
        "scheduler: one baton, passed by the trace at operation boundaries and after N instructions inside operations",
        "bit storage SB<T>: an implementation of the public Bits trait that can panic at any access (half of the fixed-width types)",
        "writer: a fmt::Write that fails or panics on command",
        "disk: a list of exported records with synced and unsynced parts, torn at a byte (the library does no I/O of its own)",
        "hashers: a fixed-key SipHash and two recording hashers instead of RandomState",
    ],
}
ASSUME = [
    "sequentially consistent interleavings of machine instructions on x86-64; weaker memory orders are not simulated",
    "faults the library cannot meet (network, clocks, its own disk I/O) do not exist here and are not injected",
    "coordinates of indices deeper than 64 levels (wider than a machine word) are out of scope (C02)",
]


class Broken(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---- build ------------------------------------------------------------------------------------


def tree_hash():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, "Cargo.toml")]
    for top in (os.path.join(REPO, "src"), os.path.join(SIM, "src")):
        for d, ds, ff in os.walk(top):
            ds.sort()
            fs += [os.path.join(d, f) for f in sorted(ff)]
    fs += [os.path.join(SIM, "Cargo.toml"), os.path.join(SIM, "Cargo.lock")]
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()


def cargo(profile, args, env, log):
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--manifest-path", os.path.join(SIM, "Cargo.toml")] + args
    return subprocess.run(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=SIM).returncode


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".check-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash()
        stamp = os.path.join(TARGET, ".tree-hash")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have.split(" ")[0] == want and all(os.path.exists(binary(p)) for p in PROFILES):
            return have.split(" ")[1] if " " in have else "simbits"
        if os.path.exists(stamp):
            os.remove(stamp)
        env = dict(os.environ, RUSTC_BOOTSTRAP="morton_sim", CARGO_TARGET_DIR=TARGET)
        for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            env.pop(v, None)
        # cargo decides by time stamps; the tree may have changed without them
        for p in PROFILES:
            subprocess.run(["cargo", "clean", "--offline", "--profile", p, "-p", "morton-index", "-p", "morton-sim"], env=env, cwd=SIM, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        last = ""
        for feat, args in (("simbits", ["--locked"]), ("simbits", []), ("plain", ["--no-default-features"])):
            logs = []
            rcs = {}
            lock_before = open(os.path.join(SIM, "Cargo.lock")).read()
            for p in PROFILES:  # one after the other: each already uses all cores
                with open(os.path.join(TARGET, "build-%s.log" % p), "w") as log:
                    rcs[p] = cargo(p, args, env, log)
                if rcs[p] != 0:
                    last = open(os.path.join(TARGET, "build-%s.log" % p)).read()[-3000:]
                    break
            if open(os.path.join(SIM, "Cargo.lock")).read() != lock_before:
                open(os.path.join(SIM, "Cargo.lock"), "w").write(lock_before)
            if all(rcs.get(p) == 0 for p in PROFILES):
                open(stamp, "w").write(want + " " + feat)
                return feat
        raise Broken("build failed:\n" + last)


def binary(profile):
    return os.path.join(TARGET, profile, "morton-sim")


# ---- running ----------------------------------------------------------------------------------


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(") ", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


class Chunk:
    def __init__(self, profile, prop, seed, a, b, first, scratch):
        self.profile, self.prop, self.seed, self.a, self.b, self.first = profile, prop, seed, a, b, first
        self.prog = os.path.join(scratch, "p-%s-%d" % (profile, a))
        self.out = os.path.join(scratch, "o-%s-%d" % (profile, a))
        self.died = None

    def at(self):
        try:
            return int(open(self.prog).read() or self.a)
        except (OSError, ValueError):
            return self.a

    def run(self, stop):
        """returns list of (run, message); fills .lines"""
        cmd = [binary(self.profile), "run", "--prop", self.prop, "--seed", str(self.seed), "--from", str(self.a), "--to", str(self.b), "--progress", self.prog]
        if self.first:
            cmd.append("--first")
        with open(self.out, "wb") as o:
            p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.DEVNULL)
            seen, since_cpu, last, idle = None, 0.0, 0.0, 0
            killed = None
            nap = 0.005
            while p.poll() is None:
                time.sleep(nap)
                nap = min(nap * 1.5, 0.1)
                if stop.is_set():
                    p.kill()
                    p.wait()
                    return None
                cur, cpu = self.at(), cpu_of(p.pid)
                idle = idle + 1 if cur == seen and cpu == last and nap >= 0.1 else 0
                last = cpu
                if cur != seen:
                    seen, since_cpu = cur, cpu
                elif cpu - since_cpu > CPU_HANG or idle > IDLE_POLLS:
                    killed = "an operation never completes (%s)" % ("it sleeps" if idle > IDLE_POLLS else "%d s of CPU time and no end" % CPU_HANG)
                    p.kill()
                    p.wait()
        txt = open(self.out, "rb").read().decode("utf-8", "replace")
        self.lines = txt.splitlines()
        done = any(l.startswith("E ") for l in self.lines)
        if not done:
            rc = p.returncode
            why = killed or ("the process was killed by signal %d (%s) inside an operation" % (-rc, signal.Signals(-rc).name) if rc < 0 else "the process ended with exit code %d inside an operation" % rc)
            self.died = (self.at(), why)
        vs = []
        for l in self.lines:
            if l.startswith("V "):
                _, n, m = l.split(" ", 2)
                vs.append((int(n), m))
        if self.died:
            vs.append(self.died)
        for f in (self.out, self.prog):
            try:
                os.remove(f)
            except OSError:
                pass
        return vs


def replay_text(text, profile, cpu=CPU_HANG):
    """(verdict, message): verdict 'violated' | 'held' | 'error'"""
    if text.startswith("morton-sim-batch v1"):
        f = dict(l.split(" ", 1) for l in text.splitlines()[1:] if " " in l and not l.startswith("#"))
        cmd = [binary(profile), "run", "--prop", f["prop"], "--seed", f["seed"], "--from", f["from"], "--to", f["to"], "--first"]
        tmp = None
    else:
        fd, tmp = tempfile.mkstemp(prefix="morton-sim-")
        os.write(fd, text.encode())
        os.close(fd)
        cmd = [binary(profile), "replay", tmp]
    try:
        with tempfile.TemporaryFile() as o:
            p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.DEVNULL, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu)))
            nap, last, idle = 0.002, 0.0, 0
            while p.poll() is None:
                time.sleep(nap)
                nap = min(nap * 1.3, 0.1)
                c = cpu_of(p.pid)
                idle = idle + 1 if c == last and nap >= 0.1 else 0
                last = c
                if idle > IDLE_POLLS:
                    p.kill()
                    p.wait()
                    return "violated", "an operation never completes (it sleeps)"
            o.seek(0)
            out, rc = o.read().decode("utf-8", "replace"), p.returncode
    finally:
        if tmp:
            os.remove(tmp)
    for l in out.splitlines():
        if l.startswith("violated "):
            return "violated", l.split(" ", 2)[2]
        if l.startswith("V "):
            return "violated", l.split(" ", 2)[2]
        if l.startswith("held ") or l.startswith("E "):
            return "held", ""
    if rc < 0:
        if -rc in (signal.SIGXCPU, signal.SIGKILL):
            return "violated", "an operation never completes"
        return "violated", "the process was killed by signal %d inside an operation" % -rc
    if rc not in (0, 1, 2):
        return "violated", "the process ended with exit code %d inside an operation" % rc
    return "error", out[-300:]


# ---- minimising -------------------------------------------------------------------------------


class T:
    """a trace file as lines: head and steps"""

    def __init__(self, text):
        self.head, self.steps = [], []
        for l in text.splitlines():
            (self.steps if re.match(r"t\d+ ", l) else self.head).append(l)

    def text(self):
        return "\n".join(self.head + self.steps) + "\n"

    def copy(self):
        t = T("")
        t.head, t.steps = list(self.head), list(self.steps)
        return t


def minimise(text, profile, secs):
    end = time.time() + secs
    tried = [0]

    def bad(t):
        if time.time() > end:
            return False
        tried[0] += 1
        v, _ = replay_text(t.text(), profile, 8)
        return v == "violated"

    t = T(text)
    n = len(t.steps)
    size = max(1, n // 2)
    while size >= 1 and time.time() < end:
        i = 0
        any_ = False
        while i < len(t.steps):
            c = t.copy()
            del c.steps[i : i + size]
            if bad(c):
                t, any_ = c, True
            else:
                i += size
        size = size // 2 if not any_ or size > 1 else (1 if any_ else 0)
        if size == 1 and not any_ and len(t.steps) <= 1:
            break
        if size == 0:
            break
    for i in range(len(t.steps)):
        if " | " in t.steps[i]:
            c = t.copy()
            c.steps[i] = c.steps[i].split(" | ")[0]
            if bad(c):
                t = c
    # a shorter schedule
    for i, l in enumerate(t.head):
        if l.startswith("picks"):
            p = l.split()[1:]
            for cand in ([], p[: len(p) // 4], p[: len(p) // 2], ["0"] * len(p)):
                c = t.copy()
                c.head[i] = " ".join(["picks"] + cand)
                if bad(c):
                    t = c
                    break
            p = t.head[i].split()[1:]
            for k in range(len(p)):
                if p[k] != "0":
                    c = t.copy()
                    q = list(p)
                    q[k] = "0"
                    c.head[i] = " ".join(["picks"] + q)
                    if bad(c):
                        t, p = c, q
            while p and p[-1] == "0":
                p = p[:-1]
            c = t.copy()
            c.head[i] = " ".join(["picks"] + p)
            if bad(c):
                t = c
        elif l.startswith("kinds"):
            ks = l.split()[1:]
            for k in list(ks):
                if len(ks) > 1:
                    c = t.copy()
                    c.head[i] = " ".join(["kinds"] + [x for x in ks if x != k])
                    if bad(c):
                        t, ks = c, [x for x in ks if x != k]
        elif l.startswith("dynmax"):
            for v in (3, 5, 9, 17, 33, 66, 130, 300):
                if v < int(l.split()[1]):
                    c = t.copy()
                    c.head[i] = "dynmax %d" % v
                    if bad(c):
                        t = c
                        break
    # smaller numbers
    for i in range(len(t.steps)):
        f = t.steps[i].split()
        for j in list(range(2, 7)) + [k for k in range(9, len(f))]:
            v = int(f[j])
            for s in (0, 1, 2, 3, v % 10, v % 100, v // 2):
                if s < v:
                    g = list(f)
                    g[j] = str(s)
                    c = t.copy()
                    c.steps[i] = " ".join(g)
                    if bad(c):
                        t, f = c, g
                        break
    return t.text(), tried[0]


def confirm(ch, n, msg, known):
    """turns a violating run into a replay file; None if it does not reproduce"""
    gen = subprocess.run([binary(ch.profile), "gen", "--prop", ch.prop, "--seed", str(ch.seed), "--run", str(n)], stdout=subprocess.PIPE, timeout=60).stdout.decode()
    v, m = replay_text(gen, ch.profile)
    v2, _ = replay_text(gen, ch.profile) if v == "violated" else ("held", "")
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-seed%d-run%d-%s.trace" % (ch.prop, ch.seed, n, ch.profile))
    if v == "violated" and v2 == "violated":
        slow = "never completes" in m or "cannot proceed" in m
        small, tried = minimise(gen, ch.profile, 120 if slow else 60)
        vs = [replay_text(small, ch.profile) for _ in range(2)]
        if not all(x[0] == "violated" for x in vs):
            small, vs = gen, [(v, m)]
        head = ["# violation of %s: %s" % (ch.prop, vs[0][1]), "# found at seed %d run %d, profile %s; minimised with %d replays from %d to %d steps" % (ch.seed, n, ch.profile, tried, len(T(gen).steps), len(T(small).steps)), "# profile %s" % ch.profile]
        open(path, "w").write("\n".join(head) + "\n" + small)
        return path, vs[0][1]
    # the library carries state from run to run: the batch up to this run is the history that matters
    def batch(a):
        return "morton-sim-batch v1\nprop %s\nseed %d\nfrom %d\nto %d\n" % (ch.prop, ch.seed, a, n + 1)

    end = time.time() + 120
    ok = [replay_text(batch(ch.a), ch.profile, 600) for _ in range(2)]
    if all(x[0] == "violated" for x in ok):
        a = ch.a
        step = (n - a) // 2
        while step > 0 and time.time() < end:
            if a + step <= n and replay_text(batch(a + step), ch.profile, 600)[0] == "violated":
                a += step
            step //= 2
        m = replay_text(batch(a), ch.profile, 600)[1]
        open(path, "w").write(batch(a) + "# violation of %s: %s\n# profile %s\n# depends on what earlier runs left behind in the library\n" % (ch.prop, m, ch.profile))
        return path, m
    return None


# ---- the check --------------------------------------------------------------------------------


def known_findings(prop):
    """finding: property=<id> match="<regular expression on the violation message>" <what fails>"""
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\w+) match="((?:[^"\\]|\\.)*)" (.*)', l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def check(prop, tier, seed, runs=None, secs=None):
    t0 = time.time()
    feat = build()
    build_s = time.time() - t0
    quick, thorough, per = BUDGET[prop]
    total = runs or (quick if tier == "quick" else thorough)
    wall = secs or WALL[tier]
    known = known_findings(prop)
    for _, text in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, text))
    scratch = tempfile.mkdtemp(prefix="morton-check-")
    start = time.time()
    todo = []
    for i, a in enumerate(range(0, total, per)):
        todo.append(Chunk(PROFILES[i % 2], prop, seed, a, min(a + per, total), not known, scratch))
    todo.reverse()
    stop = threading.Event()
    lock = threading.Lock()
    stats, nontriv, triv, cover, found, other, done_runs, errors = {}, set(), set(), set(), [], {}, [0], []

    def work():
        while not stop.is_set():
            with lock:
                if not todo or time.time() - start > wall:
                    return
                c = todo.pop()
            try:
                vs = c.run(stop)
            except Exception as e:  # noqa
                with lock:
                    errors.append(repr(e))
                stop.set()
                return
            if vs is None:
                return
            with lock:
                for l in c.lines:
                    k = l[0]
                    if k == "N":
                        nontriv.add(int(l[2:], 16))
                    elif k == "H":
                        triv.add(int(l[2:], 16))
                    elif k == "C":
                        cover.add(int(l[2:], 16))
                    elif k == "S":
                        n, v = l[2:].rsplit(" ", 1)
                        stats[n] = stats.get(n, 0) + int(v)
                    elif k == "O":
                        _, n, cl, m = l.split(" ", 3)
                        other.setdefault(cl, m)
                    elif k == "E":
                        done_runs[0] += int(l[2:])
                vs = [(n, m) for n, m in vs if not any(r.search(m) for r, _ in known)]
                if vs:
                    found.extend((n, c, m) for n, m in vs)
                    if len(found) >= 3 or any("cannot proceed" in m or "never completes" in m for _, m in vs):
                        stop.set()
                c.lines = None

    ths = [threading.Thread(target=work) for _ in range(JOBS)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    search_s = time.time() - start
    if errors:
        shutil.rmtree(scratch, ignore_errors=True)
        raise Broken("; ".join(errors))

    # the same seeds again in other processes: must be the same executions
    redo = {}
    n = 40 if prop in THREADED else 500
    if not found:
        for p in PROFILES:
            outs = []
            for _ in range(2):
                o = subprocess.run([binary(p), "run", "--prop", prop, "--seed", str(seed), "--from", "0", "--to", str(n), "--digests"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
                outs.append([l for l in o.splitlines() if l.startswith(b"D ")])
            redo[p] = {"runs_executed_twice": n, "identical": sum(x == y for x, y in zip(*outs))}

    viols = []
    unrep = []
    if found:
        found.sort(key=lambda x: x[0])
        for n, c, m in found[:3]:
            say("run %d (%s) violates %s: %s" % (n, c.profile, prop, m[:400]))
            r = confirm(c, n, m, known)
            if r:
                viols.append((r[0], r[1], n, c))
                break
            unrep.append((n, c, m))
        if not viols and len(unrep) >= 3:
            # seen in several runs, never twice the same: nondeterminism inside the library itself
            n, c, m = unrep[0]
            path = os.path.join(REPLAYS, "%s-seed%d-run%d-%s.trace" % (prop, seed, n, c.profile))
            open(path, "w").write("morton-sim-batch v1\nprop %s\nseed %d\nfrom %d\nto %d\n# violation of %s: %s\n# profile %s\n" % (prop, seed, c.a, n + 1, prop, m, c.profile))
            viols.append((path, m, n, c))
    shutil.rmtree(scratch, ignore_errors=True)

    samples = []
    for r in (0, 1):
        p = PROFILES[r]
        g = subprocess.run([binary(p), "gen", "--prop", prop, "--seed", str(seed), "--run", str(r)], stdout=subprocess.PIPE).stdout.decode()
        samples.append({"run": r, "profile": p, "trace": g.splitlines()})
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fired_")}
    ops = {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op_")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith(("op_", "fired_")) and k not in ("runs", "ops")}
    hours = max(search_s, 1e-3) / 3600
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done_runs[0],
            "distinct_nontrivial": len(nontriv),
            "rule": RULE + NONTRIV["threaded" if prop in THREADED else "serial"] + " Distinct: the digest of all results, fired faults and (with threads) the interleaving differs.",
            "samples": samples,
            "distinct_trivial": len(triv - nontriv),
            "runs_per_hour": int(done_runs[0] / hours),
            "seeds_per_hour": int(done_runs[0] / hours),
            "seed_note": "one (seed, run number) pair is one repeatable execution",
            "simulated_time": "the library has no clock or timer; simulated time is counted in operations: %d" % stats.get("ops", 0),
            "operations_executed": stats.get("ops", 0),
            "operations_by_kind": ops,
            "faults_injected": faults,
            "probes": probes,
            "distinct_situations": len(cover),
            "distinct_situations_measure": "distinct (operation, storage type, depth or conversion target or construction route, fault fired and its position) tuples reached",
            "determinism": redo,
            "profiles": {"release": "no overflow checks, as shipped", "checked": "overflow checks and debug assertions"},
            "user_supplied_bit_storage": feat == "simbits",
            "components": REAL,
            "seen_but_belonging_to_other_properties": other,
            "not_reproduced": [{"run": n, "profile": c.profile, "message": m} for n, c, m in unrep] if not viols else [],
            "build_s": round(build_s, 1),
            "search_s": round(search_s, 1),
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % prop))
    say("%s %s: %d runs (%d distinct non-trivial, %d situations), %d operations, faults fired: %s; %.0f s" % (prop, tier, done_runs[0], len(nontriv), len(cover), stats.get("ops", 0), faults, time.time() - t0))
    for path, m, n, c in viols:
        say("  %s" % m[:600])
        say("  replay: python3 %s replay %s" % (os.path.join(HERE, "check.py"), path))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viols else 0


def main():
    a = sys.argv[1:]

    def opt(k, d=None):
        return a[a.index(k) + 1] if k in a else d

    try:
        if a[:1] == ["build"]:
            say("built (%s)" % build())
            return 0
        if a[:1] == ["check"] and len(a) > 1 and a[1] in BUDGET:
            tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
            seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
            r, s = opt("--runs"), opt("--secs")
            return check(a[1], tier, seed, int(r) if r else None, float(s) if s else None)
        if a[:1] == ["replay"] and len(a) > 1:
            build()
            txt = open(a[1]).read()
            prof = re.search(r"^# profile (\w+)", txt, re.M)
            body = "\n".join(l for l in txt.splitlines() if not l.startswith("#")) + "\n"
            v, m = replay_text(body, prof.group(1) if prof else "release")
            say(v, m)
            return {"violated": 1, "held": 0}.get(v, 2)
    except Broken as e:
        say("ERROR", e)
        return 2
    except Exception as e:  # noqa
        import traceback

        traceback.print_exc()
        return 2
    say(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

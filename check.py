#!/usr/bin/env python3
"""Orchestrator of the deterministic-simulation checks.

  check.py build                      build the simulator against /repo's working tree
  check.py run C01 [--tier quick]     decide one property (seed from VERIF_SEED, tier from VERIF_TIER)
  check.py replay FILE                re-execute a replay file
  check.py selftest                   determinism: the same runs twice, grouped differently

Exit 0: held on everything explored.  Exit 1: violated, with a VIOLATION line.  Exit 2: the check failed.
"""
import fcntl, hashlib, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = os.path.normpath(os.path.join(VERIF, "..", "repo"))
TARGET = os.path.join(SIM, "target")
CFGS = ("serial", "par", "adaptive")
FEAT = {"serial": [], "par": ["--features", "par"], "adaptive": ["--features", "adaptive"]}
CPUS = sorted(os.sched_getaffinity(0))
HANG = 90          # seconds without a line from a worker before a run is suspected to hang
CROSS = 8          # every CROSS-th run is executed in all three build configurations

# runs per tier: (quick, thorough); chosen so that quick explores for about 50 s on 8 cores
RUNS = {
    "C01": (14000, 150000), "C02": (44000, 400000), "C03": (10000, 110000), "C04": (10000, 90000),
    "C05": (24000, 250000), "C06": (6400, 60000), "C07": (7000, 70000), "C08": (120000, 1000000),
    "C09": (7000, 80000), "C10": (11000, 110000), "C11": (18000, 180000), "C12": (12000, 120000),
    "C13": (28000, 300000), "C17": (8000, 80000),
}
CAP = {"quick": 240, "thorough": 780}      # wall-clock cap of the exploration
MINIMISE = {"quick": 75, "thorough": 90}


class Broken(Exception):
    pass


# ------------------------------------------------------------------ build

def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs")]
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        want = tree_hash()
        stamp = os.path.join(TARGET, "tree")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            # never trust time stamps: a changed tree rebuilds the crate under test
            for c in CFGS:
                fp = os.path.join(TARGET, c, "release", ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith("gfwx"):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        env = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_BOOTSTRAP"):
            env.pop(k, None)
        env["RUSTC_WRAPPER"] = os.path.join(SIM, "rustc-wrap.sh")
        env["RUSTFLAGS"] = "--cap-lints allow"
        procs = []
        for c in CFGS:
            cmd = ["cargo", "build", "--offline", "--release", "-q", "-p", "gfwxsim",
                   "--target-dir", os.path.join(TARGET, c)] + FEAT[c]
            procs.append((c, subprocess.Popen(cmd, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = None
        for c, p in procs:
            out = p.communicate()[0].decode(errors="replace")
            if p.returncode != 0 and bad is None:
                bad = "building the simulator (%s) failed:\n%s" % (c, out[-6000:])
        if bad:
            raise Broken(bad)
        with open(stamp, "w") as f:
            f.write(want)
        return time.time() - t0


def binary(cfg):
    return os.path.join(TARGET, cfg, "release", "gfwxsim")


def pin(cpu):
    def f():
        try:
            os.sched_setaffinity(0, {cpu})
        except OSError:
            pass
        os.setpgid(0, 0)
    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.kill()
    except OSError:
        pass


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------ exploration

class Explorer:
    def __init__(self, prop, seed, total, cap, log=True):
        self.prop, self.seed, self.total, self.cap = prop, seed, total, cap
        self.known = [k for k, _ in known_findings(prop)]
        self.runs = {}            # (cfg, idx) -> stats
        self.viol = []            # (idx, cfg, {class, detail, spec})
        self.suspects = []        # (idx, cfg, what)
        self.errors = []
        self.cov = {}             # cfg -> (edges, bytearray)
        self.lock = threading.Lock()
        self.reported = set()     # (idx, cfg) of whatever was taken up
        self.stop = False
        self.capped = False
        self.t0 = time.time()

    def jobs(self):
        # cheap runs first is not wanted: every region of indices gets every configuration
        chunk = max(8, min(400, self.total // (len(CPUS) * 12) + 1))
        for a in range(0, self.total, chunk):
            for c in CFGS:
                yield (c, a, min(self.total, a + chunk))

    def explore(self):
        self.t0 = time.time()
        self.queue = queue.Queue()
        for j in self.jobs():
            self.queue.put(j)
        self.go()

    def resume(self):
        """Goes on after something that did not reproduce."""
        self.t0 = time.time() - self.wall
        self.viol, self.suspects, self.stop = [], [], False
        self.go()

    def go(self):
        q = self.queue
        ths = [threading.Thread(target=self.slot, args=(cpu, q), daemon=True) for cpu in CPUS]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.wall = time.time() - self.t0

    def slot(self, cpu, q):
        while not self.stop:
            if time.time() - self.t0 > self.cap:
                self.capped = True
                return
            try:
                cfg, a, b = q.get_nowait()
            except queue.Empty:
                return
            try:
                self.worker(cpu, cfg, a, b)
                # whatever of the range an interruption left out
                if self.stop:
                    done = [i for i in range(a, b) if (cfg, i) in self.runs or (i, cfg) in self.reported]
                    if max(done, default=a - 1) + 1 < b:
                        q.put((cfg, max(done, default=a - 1) + 1, b))
            except Exception as e:      # noqa
                with self.lock:
                    self.errors.append("orchestrator: %r" % (e,))
                    self.stop = True

    def worker(self, cpu, cfg, a, b):
        cmd = [binary(cfg), "worker", "--prop", self.prop, "--seed", str(self.seed), "--from", str(a), "--to", str(b),
               "--every", str(CROSS)]
        for k in self.known:
            cmd += ["--known", k]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                             preexec_fn=pin(cpu))
        last = [time.time(), None]      # time of the last line, run under way
        done = threading.Event()

        def watch():
            while not done.wait(1.0):
                if time.time() - last[0] > HANG:
                    kill(p)
                    return
                if self.stop or time.time() - self.t0 > self.cap + 30:
                    kill(p)
                    return
        w = threading.Thread(target=watch, daemon=True)
        w.start()
        hung = False
        found = False
        for raw in p.stdout:
            line = raw.decode(errors="replace").rstrip("\n")
            last[0] = time.time()
            tag, _, rest = line.partition(" ")
            if tag == "B":
                last[1] = int(rest)
            elif tag == "R":
                i, _, j = rest.partition(" ")
                with self.lock:
                    self.runs[(cfg, int(i))] = json.loads(j)
                last[1] = None
            elif tag == "V":
                i, _, j = rest.partition(" ")
                with self.lock:
                    self.viol.append((int(i), cfg, json.loads(j)))
                    self.reported.add((int(i), cfg))
                    self.stop = True
                found = True
                last[1] = None
            elif tag == "S":
                n, _, hx = rest.partition(" ")
                with self.lock:
                    old = self.cov.get(cfg)
                    v = int(hx[::-1] or "0", 16)
                    self.cov[cfg] = (int(n), (old[1] if old else 0) | v)
            elif tag == "H":
                with self.lock:
                    self.errors.append("harness: run %s of %s (%s)" % (rest, self.prop, cfg))
                    self.stop = True
                last[1] = None
        hung = time.time() - last[0] > HANG
        rc = p.wait()
        done.set()
        if found or self.errors:
            return
        if self.stop or time.time() - self.t0 > self.cap + 29:
            if rc < 0 and not hung:
                return              # ended by us
        if last[1] is not None and (rc not in (0, 1)):
            with self.lock:
                self.suspects.append((last[1], cfg, "hang" if hung else "died (%s)" % rc))
                self.reported.add((last[1], cfg))
                self.stop = True


def gen_spec(prop, seed, idx, cfg):
    o = subprocess.run([binary(cfg), "gen", "--prop", prop, "--seed", str(seed), "--idx", str(idx)],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    s = json.loads(o.stdout)
    s["cfg"] = cfg
    return s


# ------------------------------------------------------------------ executing one spec

def execute(spec, known, prelude=(), timeout=60, cpu=None):
    """-> (class or None, detail, spec with decisions, raw stats)"""
    fd, path = tempfile.mkstemp(prefix="gfwxsim-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"prelude": list(prelude), "spec": spec}, f)
        cmd = [binary(spec["cfg"]), "exec", path]
        for k in known:
            cmd += ["--known", k]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                             preexec_fn=pin(CPUS[0] if cpu is None else cpu))
        try:
            out = p.communicate(timeout=timeout)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            kill(p)
            p.communicate()
            return ("hang", "no result within %d s of real time, and no simulated step limit reached" % timeout, spec, None)
    finally:
        os.unlink(path)
    last = None
    begun = None
    for line in out.splitlines():
        tag, _, rest = line.partition(" ")
        if tag == "V":
            j = json.loads(rest.partition(" ")[2])
            return (j["class"], j["detail"], j["spec"], None)
        if tag == "I":
            return ("INVALID", "", spec, None)
        if tag == "H":
            return ("HARNESS", rest, spec, None)
        if tag == "B":
            begun = rest
        if tag == "R":
            begun = None
            last = json.loads(rest.partition(" ")[2])
    if begun is not None:
        return ("died", "the process ended with status %s in the middle of the run" % p.returncode, spec, None)
    return (None, "", spec, last)


# ------------------------------------------------------------------ minimisation

class Minimiser:
    def __init__(self, spec, cls, known, budget):
        self.cls, self.known = cls, known
        self.deadline = time.time() + budget
        self.tries = 0
        self.best = spec
        self.detail = ""
        self.limit = 30

    def left(self):
        return self.deadline - time.time()

    def fails(self, s, cpu=None):
        self.tries += 1
        t0 = time.time()
        r = execute(s, self.known, timeout=max(2, min(self.limit, self.left() + 5)), cpu=cpu)
        return r if r[0] == self.cls else None

    def first(self, cands):
        """The first of several candidates that still fails (tried in parallel)."""
        cands = list(cands)
        for k in range(0, len(cands), len(CPUS)):
            part = cands[k:k + len(CPUS)]
            if self.left() <= 0:
                return None
            res = [None] * len(part)

            def one(i):
                try:
                    res[i] = self.fails(part[i], CPUS[i])
                except Exception:       # noqa
                    res[i] = None
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(part))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for i, r in enumerate(res):
                if r:
                    return part[i], r
        return None

    def structural(self):
        cur = json.loads(json.dumps(self.best))
        cur["decisions"] = None
        if self.fails(cur) is None:
            return
        self.best = cur
        progress = True
        while progress and self.left() > 0:
            progress = False
            for cand in self.rounds(cur):
                if self.left() <= 0:
                    break
                r = self.first(cand)
                if r:
                    cur = r[0]
                    self.best = cur
                    progress = True
        self.best = cur

    def rounds(self, s):
        """Groups of simpler specs; within a group the boldest first."""
        def edit(f):
            c = json.loads(json.dumps(self.best))
            try:
                if f(c) is False:
                    return None
            except (KeyError, IndexError, ZeroDivisionError):
                return None
            return c

        def group(*fs):
            g = [edit(f) for f in fs]
            # a well-founded order: shorter text, or the same length and smaller
            now = json.dumps(self.best, sort_keys=True)
            return [x for x in g if x is not None
                    and (lambda t: (len(t), t) < (len(now), now))(json.dumps(x, sort_keys=True))]

        def setk(k, v):
            def f(c):
                if c[k] == v:
                    return False
                c[k] = v
            return f
        # fewer operations
        n = len(self.best["ops"])
        size = n
        while size >= 1:
            fs = []
            for a in range(0, n, size):
                def f(c, a=a, size=size):
                    if len(c["ops"]) <= 1:
                        return False
                    del c["ops"][a:a + size]
                    if not c["ops"] and s["ops"]:
                        return False
                fs.append(f)
            yield group(*fs)
            n = len(self.best["ops"])
            size = min(size // 2, n)
        yield group(setk("policy", [0, 0, 0, 0]), setk("ctx", 0), setk("threads", 1), setk("threads", 2), setk("threads", 3))

        def one_case(c):
            if len(c["cases"]) < 2:
                return False
            c["cases"] = c["cases"][:1]
        yield group(one_case)
        for k in list(self.best["n"]):
            def z(v):
                def f(c):
                    if c["n"][k] == v or c["n"][k] == 0:
                        return False
                    c["n"][k] = v
                return f
            yield group(z(0), z(1))
        for i in range(len(self.best["cases"])):
            def cs(k, v):
                def f(c):
                    x = c["cases"][i]
                    v2 = v(x[k]) if callable(v) else v
                    if x[k] == v2 or (isinstance(v2, int) and k in ("w", "h") and v2 < 1):
                        return False
                    x[k] = v2
                return f
            yield group(cs("w", lambda v: v // 4), cs("w", lambda v: v // 2), cs("w", lambda v: v * 3 // 4), cs("w", lambda v: v - 1),
                        cs("h", lambda v: v // 4), cs("h", lambda v: v // 2), cs("h", lambda v: v * 3 // 4), cs("h", lambda v: v - 1))
            yield group(cs("layers", 1), cs("channels", 1), cs("channels", lambda v: max(1, v - 1)), cs("layers", lambda v: max(1, v - 1)),
                        cs("prog", []), cs("prog", lambda v: v[:1]), cs("prog", lambda v: v[1:]))
            yield group(cs("metadata", 0), cs("chroma_scale", 1), cs("quality", 1024), cs("filter", 0), cs("enc", 0), cs("enc", 1),
                        cs("intent", 0), cs("block_size", 2), cs("content", 0), cs("content", 2), cs("content_seed", 1))
        for i in range(len(self.best["ops"])):
            for k in range(len(self.best["ops"][i])):
                def z(v):
                    def f(c):
                        o = c["ops"][i]
                        w = v(o[k])
                        if abs(w) >= abs(o[k]):
                            return False
                        o[k] = w
                    return f
                yield group(z(lambda v: 0), z(lambda v: 1), z(lambda v: v // 16), z(lambda v: v // 2), z(lambda v: v - 1))

    def schedule(self):
        """Fewer scheduling decisions."""
        r = self.fails(self.best)
        if r is None:
            return
        self.detail = r[1]
        cur = r[2]
        if cur.get("decisions") is None:
            return
        replayed = self.fails(cur)
        if replayed is None:
            return
        self.best, self.detail = cur, replayed[1]
        flat = [(k, d) for k, l in enumerate(cur["decisions"]) for d in l]
        sims = len(cur["decisions"])

        def with_(items):
            c = json.loads(json.dumps(self.best))
            c["decisions"] = [[list(d) for k, d in items if k == i] for i in range(sims)]
            return c
        if flat:
            r = self.first([with_([])])
            if r:
                self.best, self.detail = r[0], r[1][1]
                return
        size = max(1, len(flat) // 2)
        while flat and self.left() > 0:
            cands = [flat[:a] + flat[a + size:] for a in range(0, len(flat), size)]
            hit = None
            for k in range(0, len(cands), len(CPUS)):
                if self.left() <= 0:
                    break
                part = cands[k:k + len(CPUS)]
                r = self.first([with_(c) for c in part])
                if r:
                    i = [with_(c) == r[0] for c in part].index(True)
                    hit = (part[i], r)
                    break
            if hit:
                flat = hit[0]
                self.best, self.detail = hit[1][0], hit[1][1][1]
                size = max(1, min(size, len(flat) // 2))
            elif size == 1:
                break
            else:
                size = max(1, size // 2)


# ------------------------------------------------------------------ one check

REAL = ("gfwx (every module of /repo/src: bit streams, header, colour transform, lifting, quantisation, entropy coding, "
        "block layer, converters), rayon's parallel iterators and bridges, byteorder")
STUB = ("rayon-core (thread pool: simulated fork-join pool with work stealing, join/scope/spawn/install), OS scheduling, "
        "caller threads, Read/Write endpoints, byte transport and storage of streams, output memory (guard-paged)")

RULES = {
    "C01": "one run = a generated picture, header, colour program, calling context, pool size and seeded schedule, compressed and compared byte for byte with the sequential reference codec",
    "C02": "one run = a stream (intact, or with damaged blocks the reference also decodes) decompressed under a seeded schedule; pixels, verdict and point of interest compared with the reference",
    "C03": "one run = compress under one schedule, deliver through a faulty transport until complete, decompress under another schedule; picture must return exactly",
    "C04": "one run = prefixes of a stream cut at chosen places, or a streaming client fed by a faulty transport, decoded under a seeded schedule; verdict, point of interest and pixels compared with the reference",
    "C05": "one run = a stream with 1-3 injected damages (or an encoder cut off at an arbitrary step), then header, program and payload decoded under a seeded schedule in guard-paged memory",
    "C06": "one run = streams each with one damaged block of known place, decoded under a seeded schedule; pixels outside the block's reach must equal those of the undamaged stream",
    "C07": "one run = compressions into output space that runs out at chosen places, under a seeded schedule in guard-paged memory",
    "C08": "one run = header, colour program and bit stream sent through simulated readers and writers with short transfers, interruptions, end of stream and errors at chosen offsets",
    "C09": "one run = several simulated caller threads making calls (successful, failing, panicking) under a seeded schedule; each result compared with the same call alone and with the reference",
    "C10": "one run = compression and/or decompression under a seeded schedule with a series-parallel race detector over every instrumented load and store",
    "C11": "one run = decodes in which chosen blocks run out of data, or compressions in which chosen blocks do not fit, under a seeded schedule; the whole call must fail",
    "C12": "one run = simulated caller threads making calls from nested parallel contexts on small pools; every run must finish within a step budget, with no deadlock",
    "C13": "one run = downsampled decodes whose unneeded tail is cut, overwritten, lost or being rewritten concurrently; result must be complete and equal to the reference",
    "C17": "one run = one to three callers making calls (successful, failing, unwinding, on damaged streams), once on larger pictures or over 16 rounds on small ones, with every allocation of the library accounted for; memory at a time, steps alone and what rounds leave behind are compared with what the input allows",
}


def popcount(x):
    return bin(x).count("1")


def evidence(prop, tier, seed, ex, build_s, viol, extra):
    runs = ex.runs
    steps = sum(r["steps"] for r in runs.values())
    nontrivial = set()
    scheds = set()
    results = set()
    faults, probes, known, pol = {}, {}, {}, {}
    for (cfg, i), r in runs.items():
        if r["sims"]:
            scheds.add(r["hash"])
        if r["nt"]:
            nontrivial.add((r["hash"], r["result"], i if not r["sims"] else 0, json.dumps(r["faults"], sort_keys=True)))
        for a, b in ((faults, "faults"), (probes, "probes"), (known, "known")):
            for k, v in r[b].items():
                a[k] = a.get(k, 0) + v
        name = ("cooperative", "random", "pct", "round-robin", "starvation")[min(4, r.get("policy", 0))]
        pol[name] = pol.get(name, 0) + 1
    per_cfg = {c: sum(1 for k in runs if k[0] == c) for c in CFGS}
    cov = {c: {"edges": v[0], "reached": popcount(v[1])} for c, v in ex.cov.items()}
    wall = max(ex.wall, 1e-3)
    sample = []
    for (cfg, i) in sorted(runs)[:: max(1, len(runs) // 3)][:3]:
        try:
            sample.append({"cfg": cfg, "spec": gen_spec(prop, seed, i, cfg), "observed": runs[(cfg, i)]})
        except Exception:       # noqa
            pass
    cross = sum(1 for i in {k[1] for k in runs} if all((c, i) in runs for c in CFGS))
    coverage = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(nontrivial),
        "rule": RULES[prop] + ". Non-trivial: a fault was injected or the schedule switched threads more often than threads exist; "
                "distinct by schedule hash, result and faults.",
        "samples": sample,
        "simulated_runs": len(runs),
        "simulations": sum(r["sims"] for r in runs.values()),
        "runs_per_hour": int(len(runs) * 3600 / wall),
        "seeds_per_hour": int(len({k[1] for k in runs}) * 3600 / wall),
        "distinct_seeds": len({k[1] for k in runs}),
        "simulated_time_steps": steps,
        "simulated_time_note": "counted in scheduler steps (one per synchronisation operation or instrumented memory access); the code reads no clock today, but every clock, sleep, random-number and processor-count query a change could introduce is answered by the simulator (jumpy clock, seeded entropy)",
        "instrumented_memory_accesses": sum(r["mem"] for r in runs.values()),
        "thread_switches": sum(r["switches"] for r in runs.values()),
        "preemptions": sum(r["preempts"] for r in runs.values()),
        "max_threads_in_a_run": max([r["threads"] for r in runs.values()] or [0]),
        "pool_jobs": sum(r["jobs"] for r in runs.values()),
        "pool_steals": sum(r["steals"] for r in runs.values()),
        "pool_nested_steals": sum(r["nested"] for r in runs.values()),
        "distinct_interleavings": len(scheds),
        "distinct_interleavings_measure": "distinct hashes of the sequence of (step, chosen thread) decisions",
        "schedule_policies": pol,
        "faults_injected": faults,
        "probes": probes,
        "known_findings_hit": known,
        "runs_per_build_configuration": per_cfg,
        "runs_compared_across_all_configurations": cross,
        "code_edges": cov,
        "real_components": REAL,
        "stub_components": STUB,
        "stopped_by_time_cap": ex.capped,
        "exploration_wall_s": round(wall, 2),
        "build_wall_s": round(build_s, 2),
        "workers": len(CPUS),
        "exhaustive": False,
    }
    coverage.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "sequentially consistent interleavings (one simulated thread runs at a time); weak-memory reorderings are covered only by the race detector (C10)",
            "the simulated fork-join pool has the semantics of rayon-core (every job runs exactly once, join/scope/install wait, blocked workers steal)",
            "the crate is built optimised; the serial configuration with overflow checks (a debug build's arithmetic), the parallel ones without",
            "the reference codec in sim/model states the format; it was compared with the repository's C++ reference implementation during development",
        ],
        "wall_s": round(time.time() - START, 2),
        "violations": viol,
    }
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def divergences(ex):
    out = []
    for i in sorted({k[1] for k in ex.runs}):
        rs = {c: ex.runs[(c, i)]["result"] for c in CFGS if (c, i) in ex.runs}
        if len(set(rs.values())) > 1:
            out.append((i, rs))
    return out


def save_replay(prop, doc):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(doc, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, doc["class"], hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body)
    return path


def confirm(ex, idx, cfg, v, known, budget):
    """Reproduce in a fresh process, minimise, reproduce again.  -> replay document or None"""
    spec, cls, detail = v["spec"], v["class"], v["detail"]
    limit = 150 if cls in ("hang", "died") else 60
    seeded = dict(spec, decisions=None)
    prelude = []
    base = None
    for cand in (spec, seeded):
        if cand.get("decisions") is None and cls not in ("hang", "died") and cand is spec:
            continue
        r = execute(cand, known, timeout=limit)
        if r[0] == cls or (cls == "died" and r[0]):
            base, cls, detail = cand, r[0], r[1]
            break
    if base is None:
        # it may need what earlier runs of the same process left behind
        until = time.time() + 240
        for n in (1, 2, 4, 8, 16, 32):
            if until - time.time() < 20:
                break
            pre = []
            j = idx - 1
            while j >= 0 and len(pre) < n:
                if (cfg, j) in ex.runs:
                    pre.insert(0, gen_spec(ex.prop, ex.seed, j, cfg))
                j -= 1
            r = execute(seeded, known, prelude=pre, timeout=min(150, until - time.time()))
            if r[0] == cls:
                base, prelude, detail = seeded, pre, r[1]
                break
            if len(pre) < n:
                break
        if base is None:
            return None
    doc = {"property": ex.prop, "class": cls, "detail": detail, "seed": ex.seed, "run": idx, "prelude": prelude}
    if prelude:
        doc["spec"] = base
        doc["original"] = {"seed": ex.seed, "run": idx}
        return doc
    m = Minimiser(base, cls, known, budget)
    m.detail = detail
    m.limit = 100 if cls == "hang" else 30
    if cls != "hang":
        m.structural()
        m.schedule()
    # the file that is reported must fail in a fresh process, twice, in the same way
    ok = None
    for cand in (m.best, base):
        a = execute(cand, known, timeout=limit)
        b = execute(cand, known, timeout=limit) if a[0] == cls and cls != "hang" else a
        if a[0] == cls and b[0] == cls and a[1] == b[1]:
            ok = (cand, a)
            break
    if ok is None:
        return None
    doc["spec"], doc["detail"] = ok[0], ok[1][1]
    doc["minimised"] = {"executions": m.tries, "elements": [c["w"] * c["h"] * c["layers"] * c["channels"] for c in ok[0]["cases"]],
                        "operations": len(ok[0]["ops"]),
                        "decisions": None if ok[0].get("decisions") is None else sum(len(d) for d in ok[0]["decisions"])}
    return doc


def run_check(prop, tier, seed):
    build_s = build()
    known = [k for k, _ in known_findings(prop)]
    total = RUNS[prop][0 if tier == "quick" else 1]
    if os.environ.get("GFWXSIM_RUNS"):
        total = int(os.environ["GFWXSIM_RUNS"])
    print("seed=%d property=%s tier=%s runs=%d workers=%d build=%.1fs" % (seed, prop, tier, total, len(CPUS), build_s), flush=True)
    ex = Explorer(prop, seed, total, CAP[tier])
    ex.explore()
    unreproduced = []
    reports = []
    begun = time.time()
    while True:
        if ex.errors:
            raise Broken("; ".join(ex.errors[:3]))
        cands = sorted(ex.viol, key=lambda v: v[0])
        for idx, cfg, what in ex.suspects:
            cands.append((idx, cfg, {"class": "hang" if what == "hang" else "died", "detail": what, "spec": gen_spec(prop, seed, idx, cfg)}))
        for idx, cfg, v in cands:
            doc = confirm(ex, idx, cfg, v, known, MINIMISE[tier])
            if doc is None:
                unreproduced.append({"run": idx, "cfg": cfg, "class": v["class"], "detail": v["detail"][:300]})
                continue
            reports.append(doc)
            break
        # what does not repeat is no finding, and no reason to stop looking
        if reports or not cands or ex.capped or time.time() - begun > 150 or len(unreproduced) > 5:
            break
        ex.resume()
    if not reports and not cands:
        for idx, rs in divergences(ex):
            a, b = sorted(rs)[0], None
            b = [c for c in sorted(rs) if rs[c] != rs[a]][0]
            ra = execute(gen_spec(prop, seed, idx, a), known)
            rb = execute(gen_spec(prop, seed, idx, b), known)
            if ra[3] and rb[3] and ra[3]["result"] != rb[3]["result"]:
                reports.append({"property": prop, "class": "config-divergence", "seed": seed, "run": idx, "prelude": [],
                                "detail": "build configurations %s and %s give different results" % (a, b),
                                "spec": gen_spec(prop, seed, idx, a), "other": gen_spec(prop, seed, idx, b)})
                break
            unreproduced.append({"run": idx, "class": "config-divergence"})
    hits = {}
    for r in ex.runs.values():
        for k, v in r["known"].items():
            hits[k] = hits.get(k, 0) + v
    extra = {"unreproduced": unreproduced}
    evidence(prop, tier, seed, ex, build_s, len(reports), extra)
    for k, what in known_findings(prop):
        if hits.get(k):
            print("KNOWN-FINDING: property=%s %s (%s, met %d times)" % (prop, what, k, hits[k]))
    steps = sum(r["steps"] for r in ex.runs.values())
    print("explored %d runs, %d simulated steps, %d switches in %.1f s%s" % (
        len(ex.runs), steps, sum(r["switches"] for r in ex.runs.values()), ex.wall, " (time cap)" if ex.capped else ""))
    if unreproduced:
        print("note: %d observations did not reproduce and are not reported: %s" % (len(unreproduced), json.dumps(unreproduced)[:400]))
    if reports:
        doc = reports[0]
        path = save_replay(prop, doc)
        print("%s: %s" % (doc["class"], doc["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if len(ex.runs) == 0:
        raise Broken("nothing was explored")
    return 0


def replay(path):
    build()
    doc = json.load(open(path))
    known = [k for k, _ in known_findings(doc["property"])]
    if doc["class"] == "config-divergence":
        a, b = execute(doc["spec"], known), execute(doc["other"], known)
        same = a[3] and b[3] and a[3]["result"] == b[3]["result"]
        print("same result" if same else "config-divergence: results differ")
        return 0 if same else 1
    cls, detail, _, _ = execute(doc["spec"], known, prelude=doc.get("prelude", []), timeout=300)
    if cls is None:
        print("the run passes")
        return 0
    print("%s: %s" % (cls, detail))
    print("recorded: %s: %s" % (doc["class"], doc["detail"]))
    print("reproduced exactly" if (cls, detail) == (doc["class"], doc["detail"]) else "differs from the record")
    return 1


def selftest(n, seeds):
    build()
    bad = 0
    for prop in sorted(RUNS):
        for seed in seeds:
            a = Explorer(prop, seed, n, 1e9)
            a.explore()
            global CPUS
            save = CPUS
            CPUS = save[:3]
            b = Explorer(prop, seed, n, 1e9)
            b.jobs = lambda b=b: iter([(c, x, min(n, x + 37)) for x in range(0, n, 37) for c in CFGS])
            b.explore()
            CPUS = save
            d = [k for k in a.runs if a.runs[k] != b.runs.get(k)]
            print("%s seed %d: %d runs, %d differ %s" % (prop, seed, len(a.runs), len(d), d[:5]), a.errors, b.errors, a.viol[:1], flush=True)
            bad += len(d) + len(a.errors) + (len(a.runs) != len(b.runs))
    return 1 if bad else 0


START = time.time()


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["build"]:
            print("built in %.1f s" % build())
            return 0
        if a[:1] == ["run"] and len(a) > 1 and a[1] in RUNS:
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            if tier not in CAP:
                tier = "quick"
            try:
                seed = int(os.environ.get("VERIF_SEED", "1"))
            except ValueError:
                seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
            return run_check(a[1], tier, seed % (1 << 48))
        if a[:1] == ["replay"] and len(a) > 1:
            return replay(a[1])
        if a[:1] == ["selftest"]:
            return selftest(int(a[1]) if len(a) > 1 else 200, [int(x) for x in a[2:]] or [1, 2])
    except Broken as e:
        print("ERROR: %s" % e, file=sys.stderr, flush=True)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

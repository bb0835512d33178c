"""Common machinery: builds the harness from /repo's working tree, runs jobs on
it, runs TLC, collects verdicts and writes evidence.  The verdicts themselves
come from the TLA+ specifications in /verif/spec."""
import hashlib, json, os, queue, random, re, select, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
CLITARGET = os.path.join(BUILD, "clitarget")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RAV1E_CPU_TARGET", "RUST_LOG"):
        e.pop(k, None)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
    return e


def source_hash():
    h = hashlib.sha256()
    for root in ("src", "ivf", "v_frame", "build.rs", "Cargo.toml", "Cargo.lock", "crates"):
        p = os.path.join(REPO, root)
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if "/target" not in d)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def _cargo(args, target, cwd):
    e = env()
    e["CARGO_TARGET_DIR"] = target
    t = time.time()
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stdout[-4000:]))
    return time.time() - t


def _fresh(target, name):
    """Forces cargo to look again when the sources differ from the last build,
    whatever their time stamps say."""
    h = source_hash()
    stamp = os.path.join(BUILD, "stamp-" + name)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("rav1e-", "ivf-", "vharness-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        # build.rs overlooks the header all the assembly files include
        ah = hashlib.sha256(open(os.path.join(REPO, "src/ext/x86/x86inc.asm"), "rb").read()).hexdigest()
        bd = os.path.join(target, "debug", "build")
        astamp = os.path.join(BUILD, "stamp-asm-" + name)
        if os.path.isdir(bd) and (not os.path.exists(astamp) or open(astamp).read() != ah):
            for d in os.listdir(bd):
                if d.startswith("rav1e-"):
                    try:
                        os.remove(os.path.join(bd, d, "out", "asm.hash"))
                    except OSError:
                        pass
        os.makedirs(BUILD, exist_ok=True)
        open(astamp, "w").write(ah)
    return h, stamp


def build_harness():
    os.makedirs(BUILD, exist_ok=True)
    h, stamp = _fresh(TARGET, "harness")
    dt = _cargo(["build", "--offline", "-q"], TARGET, os.path.join(VERIF, "harness"))
    open(stamp, "w").write(h)
    return dt


def build_cli():
    os.makedirs(BUILD, exist_ok=True)
    h, stamp = _fresh(CLITARGET, "cli")
    dt = _cargo(["build", "--offline", "-q", "--bin", "rav1e", "--config", "profile.dev.opt-level=1",
                 "--no-default-features", "--features", "asm,binaries,threading,signal_support,serialize"],
                CLITARGET, REPO)
    open(stamp, "w").write(h)
    return dt


def bin_harness():
    return os.path.join(TARGET, "debug", "vharness")


def bin_cli():
    return os.path.join(CLITARGET, "debug", "rav1e")


def scratch(prefix="v-"):
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=d)


# ----------------------------------------------------------------- workers
class Worker:
    def __init__(self, extra_env=None):
        self.extra = extra_env or {}
        self.p = None

    def start(self):
        e = env()
        e.update(self.extra)
        self.p = subprocess.Popen([bin_harness()], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None

    def run(self, job, timeout):
        """Result dict, or {"fate": "crash"|"hang"}."""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        try:
            self.p.stdin.write(json.dumps(job).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return {"fate": "crash", "id": job.get("id")}
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {"fate": "hang", "id": job.get("id")}
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    rc = self.p.wait()
                    self.stop()
                    return {"fate": "crash", "rc": rc, "id": job.get("id")}
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


def run_jobs(jobs, timeout=60, n=8, extra_env=None, deadline=None):
    """Runs every job on a pool of harness processes; results in job order.
    A job that exceeds its time is tried once more on its own with a longer
    limit before it is called a hang.  Jobs not started by the deadline
    (absolute time) give None."""
    res = [None] * len(jobs)
    q = queue.Queue()
    for i, j in enumerate(jobs):
        q.put(i)
    errs = []

    def loop():
        w = Worker(extra_env)
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                if deadline and time.time() > deadline:
                    continue
                j = jobs[i]
                res[i] = w.run(j, j.get("timeout", timeout))
        except Exception as x:  # noqa
            errs.append(x)
        finally:
            w.stop()

    ts = [threading.Thread(target=loop) for _ in range(min(n, max(1, len(jobs))))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise ToolError("worker: %r" % errs[0])
    for i, r in enumerate(res):
        if r and r.get("fate") == "hang":
            w = Worker(extra_env)
            res[i] = w.run(jobs[i], 3 * jobs[i].get("timeout", timeout))
            w.stop()
        if r and ("harness_panic" in r or "error" in r):
            raise ToolError("harness: %s on %s" % (r.get("harness_panic") or r.get("error"), json.dumps(jobs[i])[:600]))
    return res


# --------------------------------------------------------------------- TLC
def tlc(module, cfg=None, extra_env=None, args=(), workers=8, heap="6g", timeout=800, ok_codes=(0,)):
    """Runs TLC on spec/<module>.tla; returns (stdout, stats)."""
    d = scratch("tlc-")
    e = env()
    e.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", d, "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    stats = {"transitions": int(m.group(1)) if m else 0, "states": int(m.group(2)) if m else 0, "rc": p.returncode}
    if p.returncode not in ok_codes:
        txt = "\n".join(l for l in p.stdout.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting")))
        raise ToolError("TLC %s rc=%d\n%s" % (module, p.returncode, txt[-3000:]))
    return p.stdout, stats


def unquote(line):
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def judge(module, sessions, prop, cfg=None, extra_env=None, **kw):
    """Steps recorded sessions through a trace specification.  Returns
    (list of (index, event index, rule), stats)."""
    if not sessions:
        return [], {"states": 0, "transitions": 0}
    d = scratch("trace-")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for s in sessions:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        e = {"TRACE": path, "PROP": prop}
        e.update(extra_env or {})
        out, st = tlc(module, cfg, e, **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    acc, rej = set(), {}
    for l in out.splitlines():
        l = unquote(l)
        if l.startswith("ACCEPT "):
            acc.add(int(l.split()[1]) - 1)
        elif l.startswith("REJECT "):
            p = l.split(None, 3)
            rej[int(p[1]) - 1] = (int(p[2]) - 1, p[3])
    missing = set(range(len(sessions))) - acc - set(rej)
    if missing:
        raise ToolError("%s gave no verdict on sessions %s\n%s" % (module, sorted(missing)[:5], out[-2500:]))
    return sorted((k, v[0], v[1]) for k, v in rej.items()), st


def explore(module, cfg=None, **kw):
    """Exhaustive check of a specification model: a violation here is an error
    of the specification, not of the code."""
    return tlc(module, cfg, **kw)


# ------------------------------------------------------------------ checks
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.violations, self.cov, self.assume = [], {}, []
        self.states = self.trans = self.traces = 0
        self.samples, self.known_hits = [], []
        self.pending, self.pending_error = [], None
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf)) if k["property"] == pid and k.get("status") == "known"] if os.path.exists(kf) else []
        self.rng = random.Random("%s-%d" % (pid, SEED))

    def stat(self, st):
        self.states += st["states"]
        self.trans += st["transitions"]

    def model(self, module, cfg=None, **kw):
        out, st = explore(module, cfg, **kw)
        self.stat(st)
        self.cov.setdefault("models", []).append({"module": module, "config": cfg or module + ".cfg", "distinct_states": st["states"], "transitions": st["transitions"]})
        return out

    def model_async(self, module, cfg=None, **kw):
        """Model check running beside the rest of the check; joined in finish."""
        kw.setdefault("workers", 3)

        def go():
            try:
                self.model(module, cfg, **kw)
            except ToolError as x:
                self.pending_error = x
        t = threading.Thread(target=go)
        t.start()
        self.pending.append(t)

    def judge(self, module, sessions, jobs=None, cfg=None, extra_env=None, key=None, prop=None, **kw):
        """jobs: what produced each session, for the replay file.  key(session,
        event index, rule): identity of a violation for known findings."""
        rej, st = judge(module, sessions, prop or self.pid, cfg, extra_env, **kw)
        self.stat(st)
        self.traces += len(sessions)
        for k, i, rule in rej:
            ev = sessions[k]["ev"][i] if i < len(sessions[k]["ev"]) else None
            self.violation(rule, {"spec": module, "rule": rule, "event_index": i, "event": ev,
                                  "job": jobs[k] if jobs else None, "session": sessions[k]},
                           key(sessions[k], i, rule) if key else rule)
        return rej

    def violation(self, rule, detail, key=None):
        for f in self.known:
            if key == f["key"]:
                self.known_hits.append(f)
                return
        self.violations.append((rule, detail))

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def finish(self):
        [t.join() for t in self.pending]
        if self.pending_error:
            raise self.pending_error
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", self.traces)
            cov.setdefault("distinct_nontrivial", self.traces)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
                   "level": self.level, "coverage": cov, "assumptions": self.assume,
                   "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)},
                  open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        seen = set()
        for f in self.known_hits:
            if f["key"] not in seen:
                seen.add(f["key"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        shown = {}
        for n, (rule, detail) in enumerate(self.violations):
            shown[rule] = shown.get(rule, 0) + 1
            if shown[rule] > 3 or n > 30:
                continue
            path = os.path.join(rd, "%s-%d.json" % (self.pid, n))
            json.dump(detail, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s rule=%s" % (self.pid, path, rule))
        print("%s: %d violations, %d traces, %d states, %.1f s" % (self.pid, len(self.violations), self.traces, self.states, time.time() - self.t0))
        return 1 if self.violations else 0

"""Shared machinery of the checks: building drivers against /repo, running TLC,
recording evidence and reporting verdicts.  Standard library only."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, ".work")
NCPU = os.cpu_count() or 4
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


# --------------------------------------------------------------------------
# Build
# --------------------------------------------------------------------------
def build(drivers, san="", std_flags="-O1 -DNDEBUG"):
    """Compile the library from REPO's working tree plus the given drivers.
    Returns {driver: executable}.  Incremental (ninja + depfiles)."""
    key = hashlib.sha1((san + "|" + std_flags + "|" + REPO).encode()).hexdigest()[:8]
    bdir = os.path.join(WORK, "build-" + key)
    os.makedirs(bdir, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/gegelatilib/src/**/*.cpp", recursive=True))
    srcs += sorted(glob.glob(REPO + "/lib/**/*.cpp", recursive=True))
    if not srcs:
        raise CheckError("no sources under " + REPO)
    ver = "0.0.0"
    try:
        m = re.search(r"VERSION\s+([0-9][0-9.]*)\s*\)", open(REPO + "/CMakeLists.txt").read())
        ver = m.group(1) if m else ver
    except OSError:
        pass
    out = ["flags = -std=c++17 %s %s -w -pthread -DCODE_GENERATION -DGEGELATI_VERSION=\\\"%s\\\" "
           "-I%s/gegelatilib/include -I%s/lib/JsonCpp -I%s/harness\n"
           % (std_flags, ("-g -fsanitize=" + san) if san else "", ver, REPO, REPO, VERIF),
           "rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n",
           "rule ar\n  command = rm -f $out && ar crs $out $in\n",
           "rule link\n  command = g++ $flags $in -o $out\n"]
    objs = []
    for s in srcs:
        o = "lib/" + hashlib.sha1(s.encode()).hexdigest()[:6] + "_" + os.path.basename(s) + ".o"
        objs.append(o)
        out.append("build %s: cxx %s\n" % (o, s))
    out.append("build libg.a: ar %s\n" % " ".join(objs))
    exes = {}
    for d in drivers:
        out.append("build %s.o: cxx %s/harness/%s.cpp\n" % (d, VERIF, d))
        out.append("build %s: link %s.o libg.a\n" % (d, d))
        exes[d] = os.path.join(bdir, d)
    nf = os.path.join(bdir, "build.ninja")
    txt = "".join(out)
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    r = subprocess.run(["ninja", "-C", bdir] + list(drivers), capture_output=True, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:] + r.stderr[-2000:])
        raise CheckError("build failed")
    log("built", ", ".join(drivers), san)
    return exes


# --------------------------------------------------------------------------
# Running a driver
# --------------------------------------------------------------------------
class Driven:
    def __init__(self, rc, out, timeout):
        self.rc, self.out, self.timeout = rc, out, timeout

    @property
    def died(self):
        return self.timeout or self.rc != 0

    def why(self):
        if self.timeout:
            return "driver did not terminate"
        if self.rc < 0:
            return "driver killed by signal %d" % -self.rc
        return "driver exit %d: %s" % (self.rc, self.out[-500:])


def drive(cmd, timeout=150, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=e, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return Driven(p.returncode, o.decode("utf-8", "replace"), False)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return Driven(-9, o.decode("utf-8", "replace"), True)


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class Tlc:
    """Outcome of one TLC run."""
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(d[-1]) if d else 0
        self.ok = rc == 0 and "No error has been found" in out
        # a verdict of the specification (as opposed to a failure of TLC itself)
        self.rejected = (not self.ok) and rc in (10, 11, 12, 13, 75, 76, 77) or \
            "Postcondition" in out and "violated" in out or "is false" in out and "Assumption" in out

    def tail(self, n=40):
        return "\n".join(self.out.splitlines()[-n:])


def tlc(module, cfg=None, workers=1, env=None, extra=(), timeout=600, mem="2g", keep=None, simulate=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg in a scratch metadir."""
    t = time.time()
    meta = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:CICompilerCount=2", "-XX:TieredStopAtLevel=%d" % (1 if workers == 1 and not simulate else 4),
           "-cp", CP, "tlc2.TLC",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-deadlock"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    cmd = [c for c in cmd if not c.startswith("-XX:TieredStop") or c.endswith("=1")]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        rc = -999
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, o.decode("utf-8", "replace"), time.time() - t)


def pmap(fn, items, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# --------------------------------------------------------------------------
# Check context
# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.dir = os.path.join(WORK, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []        # (message, replay path)
        self.known = []
        self.granted = granted(pid)     # id -> text of the open findings of this property
        self.seen_findings = set()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.t0 = time.time()

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def violation(self, msg, replay):
        log("VIOLATION candidate:", msg, replay)
        self.violations.append((msg, replay))

    # -- model checking ---------------------------------------------------
    def model(self, module, cfg=None, name=None, workers=NCPU, timeout=600, mem="6g", env=None, extra=()):
        """Exhaustive check of the design.  A model that fails on its own is an error
        of the check (it says nothing about the code)."""
        r = tlc(module, cfg, workers=workers, timeout=timeout, mem=mem, env=env, extra=extra)
        if not r.ok:
            raise CheckError("model %s/%s failed (rc %d):\n%s" % (module, cfg, r.rc, r.tail(60)))
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", []).append(
            dict(model=name or cfg or module, states=r.distinct, transitions=r.generated, depth=r.depth,
                 seconds=round(r.wall, 1)))
        log("model", name or cfg or module, "ok:", r.distinct, "states", round(r.wall, 1), "s")
        return r

    # -- trace validation -------------------------------------------------
    def validate(self, module, files, cfg=None, timeout=500, mem="3g", par=NCPU, env=None, what="", stop_event=None):
        """Validate each recorded trace against spec/<module>.tla.  Returns number rejected."""
        def one(f):
            e = {"TRACE": f}
            e.update({k: "1" for k in self.granted})
            if env:
                e.update(env)
            r = tlc(module, cfg, env=e, timeout=timeout, mem=mem)
            if not r.ok:
                if not r.rejected:
                    r2 = tlc(module, cfg, env=e, timeout=timeout, mem=mem)
                    return f, r2
                r2 = tlc(module, cfg, env=e, timeout=timeout, mem=mem)
                return f, (r2 if r2.rejected else r2)
            return f, r
        bad = 0
        for f, r in pmap(one, files, par):
            n = sum(1 for _ in open(f))
            self.seen_findings |= set(re.findall(r'"KNOWN_FINDING", *"([A-Za-z0-9_]+)"', r.out))
            if r.ok:
                self.traces += 1
                self.events += n
                self.transitions += r.generated
                self.states += r.distinct
            elif r.rejected:
                bad += 1
                rp = self.keep(f)
                open(rp + ".tlc.txt", "w").write(r.out)
                where = rejected_at(r.out)
                line = ""
                if where:
                    with open(f) as fh:
                        for i, l in enumerate(fh, 1):
                            if i == where:
                                line = l.strip()[:240]
                                break
                self.violation("%s: trace rejected by %s at event %s: %s" % (what or self.pid, module, where, line), rp)
            else:
                raise CheckError("TLC failed on %s (rc %d):\n%s" % (f, r.rc, r.tail(60)))
        return bad

    def keep(self, f):
        d = os.path.join(WORK, "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, os.path.basename(f))
        shutil.copyfile(f, dst)
        return dst

    def record(self, cmd, out, timeout=150, env=None):
        """Run a recording driver; a driver that dies or hangs (twice) is a violation:
        the library crashed or looped on an input of the property's domain."""
        r = drive(list(cmd) + [out], timeout=timeout, env=env)
        if r.died:
            if r.rc == 3:
                raise CheckError("driver refused: " + r.out[-800:])
            r2 = drive(list(cmd) + [out], timeout=timeout, env=env)
            if r2.died:
                rp = os.path.join(WORK, "replay", self.pid)
                os.makedirs(rp, exist_ok=True)
                rp = os.path.join(rp, os.path.basename(out) + ".crash.txt")
                tail = ""
                if os.path.exists(out):
                    with open(out, "rb") as fh:
                        fh.seek(max(0, os.path.getsize(out) - 4000))
                        tail = fh.read().decode("utf-8", "replace")
                open(rp, "w").write("command: %s\n%s\n--- output\n%s\n--- end of trace\n%s\n"
                                    % (" ".join(map(str, list(cmd) + [out])), r2.why(), r2.out[-4000:], tail))
                self.violation("driver died: %s" % r2.why(), rp)
                return None
        return r

    def record_all(self, jobs, timeout=150):
        """jobs: [(command, output file)]; recorded in parallel. Once a driver died
        (a violation), what has not started is skipped. Returns the files recorded."""
        dead = []

        def one(job):
            if dead:
                return None
            ok = self.record(job[0], job[1], timeout=timeout)
            if not ok:
                dead.append(job)
            return job[1] if ok else None

        return [f for f in pmap(one, jobs) if f]

    # -- verdict ----------------------------------------------------------
    def sample_trace(self, f, n=3):
        try:
            with open(f) as fh:
                ls = [l.strip()[:300] for l in fh]
            step = max(1, len(ls) // n)
            self.samples += [dict(trace=os.path.basename(f), event=l) for l in ls[::step][:n]]
        except OSError:
            pass

    def finish(self, level="model_checking"):
        self.known += [self.granted[k] for k in sorted(self.seen_findings) if k in self.granted]
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   samples=self.samples[:12] or ["none"])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for msg, rp in self.violations:
            print("  " + msg)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
            return 1
        log("property %s held: %d states, %d transitions, %d traces (%d events)"
            % (self.pid, self.states, self.transitions, self.traces, self.events))
        return 0


def granted(pid):
    d = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"open: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                d[m.group(2)] = "id=%s %s" % (m.group(2), m.group(3))
    except OSError:
        pass
    return d


def rejected_at(out):
    m = re.findall(r"REJECTED_AT[^0-9]*(\d+)", out)
    return int(m[-1]) if m else None


def split_seed(seed, i):
    return (seed * 1000003 + i * 7919) % 2147483647

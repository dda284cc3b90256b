"""Shared machinery: running TLC, judging recorded traces, evidence, verdicts."""
import json, os, re, shutil, signal, subprocess, sys, time, random, hashlib, fnmatch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NONE = []
BIG = 1 << 30


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """Raised by the watchdog inside code of norfair that does not come back."""


class TooManyHangs(BaseException):
    """Ends a check whose code under test keeps hanging: that is a violation by itself."""


class watchdog:
    """Turns a call that does not return within `seconds` into a Hang."""
    hangs = 0

    def __init__(self, seconds=10):
        self.seconds = seconds if watchdog.hangs < 3 else min(seconds, 3)

    def __enter__(self):
        def fire(signum, frame):
            watchdog.hangs += 1
            raise Hang()

        if watchdog.hangs >= 20:
            raise TooManyHangs()
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def chash(*parts):
    """Deterministic small hash of integers/strings."""
    return int.from_bytes(
        hashlib.blake2b(repr(parts).encode(), digest_size=4).digest(), "big"
    )


def forked(f, *args):
    """f(*args) in a child process that starts from this process' present state and leaves no trace in it."""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = (True, f(*args))
            except BaseException as e:
                out = (False, f"{type(e).__name__}: {e}")
            with os.fdopen(wr, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    ok, v = pickle.loads(data) if data else (False, "child ended")
    if not ok:
        raise RuntimeError(v)
    return v


class Work:
    """Scratch directory of one check run (inside /verif/.work, removed afterwards)."""

    def __init__(self, name):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.path = os.path.join(base, f"{name}-{os.getpid()}")
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def _java(heap):
    return [
        "java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", f"-Xmx{heap}", "-Xss16m",
        "-Dtlc2.TLC.stopAfter=100000", "-cp", JARS, "tlc2.TLC",
    ]


def _states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m2 = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        m = [(a.replace(",", ""), b.replace(",", "")) for a, b in m2]
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def plain(x):
    """What TLC's JSON reader takes: no null, no fractions (the code may return anything)."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x if abs(x) < 1 << 31 else repr(x)
    return "not a value: %r" % (x,)


def judge(module, traces, work, jobs=8, heap="2g", timeout=800, cfg=None):
    """Validate recorded traces with TLC.

    Returns (fails, stats): fails is a list of (trace index, event index, [clauses])."""
    if not traces:
        return [], {"states": 0, "transitions": 0, "traces": 0}
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
    jobs = max(1, min(jobs, len(traces)))
    chunks = [order[j::jobs] for j in range(jobs)]
    procs = []
    d = work.sub("judge-%s-%d" % (module, time.time_ns()))
    for j, ch in enumerate(chunks):
        f = os.path.join(d, f"t{j}.json")
        with open(f, "w") as fh:
            json.dump([plain({k: v for k, v in traces[i].items() if k != "stim"}) for i in ch], fh)
        env = dict(os.environ, TRACES=f)
        env.pop("JAVA_TOOL_OPTIONS", None)
        cmd = _java(heap) + ["-workers", "1", "-noGenerateSpecTE", "-metadir",
                             os.path.join(d, f"m{j}"), "-config", cfg or f"{module}.cfg",
                             f"{module}.tla"]
        out = open(os.path.join(d, f"o{j}.txt"), "w")
        procs.append((ch, out.name, subprocess.Popen(
            cmd, cwd=SPEC, env=env, stdout=out, stderr=subprocess.STDOUT)))
        out.close()
    fails, states, gen = [], 0, 0
    deadline = time.time() + timeout
    try:
        for ch, o, p in procs:
            p.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        for _, _, p in procs:
            p.kill()
        raise MachineryError(f"TLC timed out on {module}")
    for ch, o, p in procs:
        text = open(o).read()
        stopped = False
        if "Error: The behavior up to this point is" in text and (
                "Overflow when computing" in text or "Attempted to" in text):
            # an observation outside of anything the specification can express
            ti = int(re.findall(r"/\\ tbI = (\d+)", text)[-1]) - 1
            l = int(re.findall(r"/\\ tbL = (\d+)", text)[-1]) - 1
            fails.append((ch[ti], l, ["unjudgeable"]))
            stopped = True
        elif p.returncode != 0 or "Model checking completed. No error has been found." not in text:
            raise MachineryError(f"TLC failed on {module}:\n" + text[-4000:])
        g, s = _states(text)
        expect = sum(len(traces[i]["ev"]) + 1 for i in ch)
        lost, first = 0, set()
        for m in re.finditer(r"FAIL\|(\d+)\|(\d+)\|\{(.*?)\}", text):
            ti, l = int(m.group(1)) - 1, int(m.group(2)) - 1
            clauses = sorted(x.strip().strip('\\"') for x in m.group(3).split(", ") if x.strip())
            fails.append((ch[ti], l, clauses))
            if ti not in first:
                first.add(ti)
                lost += len(traces[ch[ti]]["ev"]) - (l + 1)
        if s < expect - lost and not stopped:
            raise MachineryError(f"{module}: {s} states, expected {expect - lost}\n" + text[-2000:])
        states += s
        gen += g
    fails.sort()
    shutil.rmtree(d, ignore_errors=True)
    return fails, {"states": states, "transitions": states - len(traces), "traces": len(traces)}


def model(module, work, cfg=None, workers=8, heap="8g", timeout=800, env=None, expect_violation=None):
    """Exhaustive design check. Returns (stats, printed lines)."""
    d = work.sub("model-%s-%d" % (module, time.time_ns()))
    cmd = _java(heap) + ["-workers", str(workers), "-noGenerateSpecTE", "-metadir",
                         os.path.join(d, "m"), "-config", cfg or f"{module}.cfg", f"{module}.tla"]
    if workers > 1:
        cmd[1] = "-XX:+UseParallelGC"
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    o = os.path.join(d, "out.txt")
    with open(o, "w") as fh:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module} {cfg}")
    text = open(o).read()
    if expect_violation:
        if not re.search(expect_violation + r" is violated", text) and \
           not re.search(r"property " + expect_violation, text):
            raise MachineryError(f"{module} {cfg}: expected violation of {expect_violation}\n" + text[-3000:])
    elif r.returncode != 0 or "No error has been found." not in text:
        what = re.findall(r"Error: (.*(?:violated|false).*)", text)
        raise MachineryError(f"design check {module} {cfg} failed: {what}\n" + text[-5000:])
    g, s = _states(text)
    lines = [x[1:-1] if x.startswith('"') else x for x in text.splitlines() if x.startswith('"H|') or x.startswith("H|")]
    shutil.rmtree(d, ignore_errors=True)
    return {"states": s, "transitions": g}, lines


def matches(clause, patterns):
    if clause == "unjudgeable":
        return True
    return any(fnmatch.fnmatchcase(clause, p) for p in patterns)


class Check:
    """Bookkeeping of one property's check run."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = Work(pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.other = [], [], {}
        self.cover = {}
        self.assumptions = []
        self.notes = []

    def design(self, module, cfg=None, **kw):
        st, lines = model(module, self.work, cfg=cfg, **kw)
        self.states += st["states"]
        self.transitions += st["transitions"]
        d = self.cover.setdefault("design_models", [])
        d.append({"model": module, "cfg": cfg or f"{module}.cfg", "distinct_states": st["states"],
                  "transitions": st["transitions"]})
        return lines

    def conform(self, module, traces, patterns, name=None, **kw):
        """Judge traces; failing clauses matching `patterns` are violations of this property."""
        fails, st = judge(module, traces, self.work, **kw)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.traces += st["traces"]
        c = self.cover.setdefault("conformance", {})
        c[name or module] = {"traces": st["traces"], "events": st["transitions"]}
        done = set()
        for i, l, clauses in fails:
            if i in done:
                continue
            mine = [c for c in clauses if matches(c, patterns)]
            if mine:
                done.add(i)
                self.violation(traces[i], l, mine, clauses, module)
            else:
                for c in clauses:
                    self.other[c] = self.other.get(c, 0) + 1
        if traces and len(self.samples) < 3:
            t = min(traces, key=lambda t: len(json.dumps(t.get("stim", t))))
            self.samples.append(clip(t.get("stim", t)))
        return fails

    def violation(self, trace, l, mine, clauses, module):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations) + 1}.json")
        if len(self.violations) < 5:
            with open(path, "w") as fh:
                json.dump({"property": self.pid, "spec": module, "failing_event": l,
                           "clauses": mine, "all_clauses": clauses,
                           "stimulus": trace.get("stim"),
                           "trace": {k: v for k, v in trace.items() if k != "stim"}}, fh, indent=1)
        self.violations.append((path, mine))

    def crashed(self, text):
        """The code under test raised where the driver expects none."""
        self.violation(dict(ev=[], stim=text), 0, ["crash"], ["crash"], "driver")

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"], **self.cover)
        if self.other:
            cov["clauses_of_other_properties_failed"] = self.other
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        self.work.close()
        if self.violations:
            seen = {}
            for path, mine in self.violations:
                for c in mine:
                    seen[c] = seen.get(c, 0) + 1
            print("failing clauses:", ", ".join(f"{c} x{n}" for c, n in sorted(seen.items())))
            print(f"\nVIOLATION property={self.pid} replay={self.violations[0][0]}")
            return 1
        print(f"\nOK property={self.pid} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        if self.other:
            print("note: clauses of other properties failed:", self.other)
        return 0


def clip(x, n=4000):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."

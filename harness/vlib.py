"""Shared machinery of the conformance checks.

A check (harness/cNN.py) drives the real code in /repo, records what it did as
ndjson events, and lets TLC judge the recorded events against the TLA+
specification in /verif/spec.  TLC also model-checks the specification itself
and, where the check replays model behaviours, produces them.

Only two endings are verdicts: exit 0, and exit 1 with a VIOLATION line.
"""
import contextlib, io, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def tier(q, t):
    return t if THOROUGH else q


def setup_env():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class TlcError(RuntimeError):
    """The machinery failed (not the code under test)."""
    evaluating = False


def _domain_error(out):
    """TLC could not evaluate the specification on the recorded values (32-bit overflow, a record
    without the field, an index outside a sequence): the values are outside the specification's domain."""
    return ("evaluating the nested" in out or "Overflow when computing" in out or "Evaluating invariant" in out) and not any(
        w in out for w in ("OutOfMemoryError", "StackOverflowError", "No space left", "GC overhead"))


class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.out = ""
        self.violated = None     # name of a violated invariant / property
        self.lines = []          # <<"TAG", ...>> / JSON lines printed by the spec


def run_tlc(module, cfg, env=None, workers=None, timeout=600, simulate=None, depth=None, seed=None,
            extra=(), java_opts="-Xmx6g -XX:+UseParallelGC", coverage=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>; raise TlcError if TLC itself failed."""
    scratch = tempfile.mkdtemp(prefix="tlc_")
    try:
        # TLC writes next to the module: work on a scratch copy of the specification
        work = os.path.join(scratch, "spec")
        shutil.copytree(SPEC, work)
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = java_opts
        cmd = ["tlc", "-metadir", os.path.join(scratch, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers or min(8, os.cpu_count() or 1)), "-config", cfg, "-deadlock"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
            cmd += ["-seed", str(seed if seed is not None else SEED)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out after %ss on %s" % (timeout, module))
        r = TlcResult()
        r.out = p.stdout
        r.rc = p.returncode
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated"
                      r"|Error: Temporal properties were violated", p.stdout)
        if m:
            r.violated = m.group(1) or m.group(2) or "temporal"
        if "Postcondition" in p.stdout and "violated" in p.stdout and not r.violated:
            r.violated = "POSTCONDITION"
        ok = p.returncode == 0 or r.violated
        if not ok:
            err = TlcError("TLC failed on %s (rc=%s):\n%s" % (module, p.returncode, "\n".join(l for l in p.stdout.splitlines() if l.strip() and not l.startswith(("Parsing file", "Semantic processing", "Picked up")))[-1800:]))
            err.evaluating = _domain_error(p.stdout)
            raise err
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# --------------------------------------------------------------------------
def exact_int(x, scale=1, tol=1e-7):
    """x*scale as an int when it is one (to rounding), else None."""
    try:
        v = float(x) * scale
    except Exception:
        return None
    if v != v or abs(v) >= 2 ** 30:
        return None
    r = round(v)
    return int(r) if abs(v - r) <= tol * max(1.0, abs(v)) else None


# A value TLC can never confuse with a legitimate projected integer.
NOTINT = 1999999999


def proj(x, scale=1, tol=1e-7):
    v = exact_int(x, scale, tol)
    return NOTINT if v is None else v


def proj_list(a, scale=1, tol=1e-7):
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        v = complex(a)
        if abs(v.imag) > tol * max(1.0, abs(v)):
            return NOTINT
        return proj(v.real, scale, tol)
    return [proj_list(x, scale, tol) for x in a]


class Check:
    """Collects events, validates them with TLC, writes evidence, prints the verdict."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.cover = {}
        self.replay_dir = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.known = load_known(pid)
        self.known_seen = set()

    # -- violations -------------------------------------------------------
    def violation(self, clause, detail, key=None):
        """Record a violation; `key` identifies the failing input/call site/history."""
        key = key or clause
        for k in self.known:
            if k["key"] == key:
                self.known_seen.add(key)
                return
        self.violations.append({"clause": clause, "key": key, "detail": detail})

    # -- model checking ---------------------------------------------------
    def model(self, module, cfg, **kw):
        r = run_tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.cover.setdefault("models", []).append(
            {"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated, "depth": r.depth})
        if r.violated:
            raise TlcError("the specification %s/%s does not satisfy %s:\n%s"
                           % (module, cfg, r.violated, r.out[-4000:]))
        return r

    def cases(self, module, cfg, **kw):
        """Behaviours/cases the model prints as <<"CASE", "json">>."""
        r = self.model(module, cfg, **kw)
        res = []
        for line in r.out.splitlines():
            if line.startswith('"CASE '):
                res.append(json.loads(json.loads(line)[5:]))
        if not res:
            raise TlcError("model %s/%s produced no cases" % (module, cfg))
        return res

    def validate(self, module, cfg, events, label=None, timeout=600, workers=None, env=None, key=None):
        """Check recorded events with the trace specification.

        Every event is judged (verdict is total); a rejected event is reported
        with the names of the clauses it breaks."""
        if not events:
            raise TlcError("no events recorded for %s" % module)
        def judge(evs):
            d = tempfile.mkdtemp(prefix="trace_")
            try:
                path = os.path.join(d, "trace.ndjson")
                with open(path, "w") as f:
                    for ev in evs:
                        f.write(json.dumps(ev) + "\n")
                e = {"TRACE": path}
                e.update(env or {})
                return run_tlc(module, cfg, env=e, timeout=timeout, workers=workers)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        try:
            r = judge(events)
        except TlcError as err:
            if not err.evaluating:
                raise
            # some event records values on which the specification is not even defined: name it
            evs = events
            while len(evs) > 1:
                half = evs[:len(evs) // 2]
                try:
                    judge(half)
                    evs = evs[len(evs) // 2:]
                except TlcError as err2:
                    if not err2.evaluating:
                        raise
                    evs = half
            self.traces += len(events)
            self.violation("the recorded values are outside the domain of the specification",
                           {"event": evs[0], "spec": module, "tlc": str(err)[-800:]})
            return 1
        if r.violated and r.violated != "POSTCONDITION":
            raise TlcError("unexpected %s in trace validation\n%s" % (r.violated, r.out[-3000:]))
        if r.distinct < len(events):
            raise TlcError("trace spec %s judged %d of %d events\n%s" % (module, r.distinct, len(events), r.out[-3000:]))
        if "events" in events[0]:
            want = sum(len(ev["events"]) + 1 for ev in events)
            if r.distinct < want and '"FAIL' not in r.out:
                raise TlcError("trace spec %s took %d of %d steps\n%s" % (module, r.distinct, want, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len({ev.get("run", i) for i, ev in enumerate(events)})
        self.cover.setdefault("validations", []).append(
            {"module": module, "label": label or module, "events": len(events), "distinct": r.distinct})
        if len(self.samples) < 6:
            self.samples.append({"module": module, "event": events[len(events) // 2]})
        nf = 0
        for line in r.out.splitlines():
            mm = re.match(r'^"FAIL (\d+) ([^"]*)"$', line.strip())
            if mm:
                nf += 1
                ln, clause = int(mm.group(1)), mm.group(2)
                ev = events[ln - 1]
                ms = re.match(r"step (\d+): (.*)", clause)
                if ms:
                    clause = ms.group(2)
                    ev = {"run": ev.get("run"), "init": ev.get("init"), "step": int(ms.group(1)),
                          "event": ev["events"][int(ms.group(1)) - 1], "history": ev["events"][:int(ms.group(1)) - 1][-6:]}
                self.violation(clause, {"event": ev, "spec": module, "line": ln},
                               key=(key(ev, clause) if key else None))
        return nf

    # -- end --------------------------------------------------------------
    def finish(self, extra=None):
        for k in self.known:
            if k["key"] in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if extra:
            self.cover.update(extra)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.cover)
        write_evidence(self.pid, self.level, cov, time.time() - self.t0, len(self.violations), self.assumptions)
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            path = os.path.join(self.replay_dir, "violations.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": SEED, "tier": TIER,
                           "violations": self.violations[:200]}, f, indent=1, default=str)
            seen = {}
            for v in self.violations:
                seen.setdefault(v["clause"], v)
            for c, v in list(seen.items())[:20]:
                print("  broken clause: %s   e.g. %s" % (c, json.dumps(v["detail"], default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == pid]


def write_evidence(pid, level, cov, wall, nviol, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "wall_s": round(wall, 2), "violations": nviol, "assumptions": assumptions}
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


@contextlib.contextmanager
def quiet():
    """Swallow the chatter the code prints while it is being driven."""
    so, se = sys.stdout, sys.stderr
    buf = io.StringIO()
    sys.stdout = sys.stderr = buf
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = so, se


def outcome(fn, *a, **k):
    """('ok', value) or ('raise', 'TypeName') - the public call's return, error path included."""
    try:
        with quiet():
            return "ok", fn(*a, **k)
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt, SystemExit, Runaway)):
            raise
        return "raise", type(e).__name__


class Runaway(BaseException):
    """A single call into the code under test does not come back."""


def watchdog(limit_s, limit_kb=10 * 2 ** 20, tick=5.0):
    """Raise Runaway when one call into the code under test burns limit_s of CPU time (calls
    made by the drivers take seconds) or fills the memory."""
    state = {"frame": None, "since": 0.0}

    def handler(signum, frame):
        top, f = None, frame
        while f is not None:
            if f.f_code.co_filename.startswith(REPO + os.sep):
                top = f
            f = f.f_back
        now = time.process_time()
        if top is None or top is not state["frame"]:
            state["frame"], state["since"] = top, now
            return
        with open("/proc/self/statm") as st:
            rss = int(st.read().split()[1]) * 4
        if now - state["since"] > limit_s or rss > limit_kb:
            where = "".join(traceback.format_stack(frame)[-12:])
            state["frame"] = None
            raise Runaway("%.0f s of CPU time, %d MB\n%s" % (now - state["since"], rss // 1024, where))

    signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, tick, tick)


def main(pid, body):
    setup_env()
    chk = Check(pid)
    watchdog(tier(150, 1500))
    # silence the code under test (it prints through several channels)
    out_fd, err_fd, null = os.dup(1), os.dup(2), os.open(os.devnull, os.O_WRONLY)
    real_out, real_err = sys.stdout, sys.stderr
    real_out.flush()
    debug = os.environ.get("VERIF_DEBUG")

    def restore():
        if debug:
            return
        sys.stdout.flush()
        os.dup2(out_fd, 1)
        os.dup2(err_fd, 2)
        sys.stdout, sys.stderr = real_out, real_err
    if not debug:
        os.dup2(null, 1)
        os.dup2(null, 2)
    try:
        try:
            body(chk)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)     # (the interpreter shuts down without the handler)
            signal.signal(signal.SIGVTALRM, signal.SIG_IGN)
            restore()
    except TlcError as e:
        print("MACHINERY-ERROR %s: %s" % (pid, e))
        return 2
    except Runaway as e:
        chk.violation("driver: a call into the code under test does not return", {"runaway": str(e)[-3000:]})
    except Exception as e:
        tb = traceback.format_exc()
        # The drivers only use the public interface and convert expected errors into
        # events; an exception that still gets here was provoked by the code under test.
        chk.violation("driver: the code under test raised or returned something unusable", {"traceback": tb[-3000:]})
    return chk.finish()

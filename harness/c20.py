"""C20 - watching a run: log, verbosity, wrappers, the one-rank communicator."""
import os
if not os.environ.get("C20_JIT"):
    os.environ["NUMBA_DISABLE_JIT"] = "1"
import io, json, random, re, subprocess, sys, tempfile, warnings
import numpy as np
import vlib
from vlib import tier, outcome, proj_list

TOKEN = re.compile(r"<(\d+):([^>]*)>")


def _lines(text):
    res = []
    for ln in text.splitlines():
        for m in TOKEN.finditer(ln):
            low = ln.lower()
            res.append([int(m.group(1)), "error" if "error" in low else "warn" if "warn" in low else "plain", m.group(2)])
    return res


def log_event(lg, case, style):
    class Rec:
        pass
    rec = Rec()
    so, se, out, err = sys.stdout, sys.stderr, io.StringIO(), io.StringIO()
    rec.verbose = case["verb"]
    rec.stdout = out if case["console"] else io.StringIO()
    oc = "ok"
    sys.stdout, sys.stderr = out, err
    try:
        for i, k in enumerate(case["hist"]):
            form = (i + style) % 3 if k != "stdout" else 0
            if form == 0:
                getattr(lg, k)(rec, "<%d:x>" % (i + 1))
            elif form == 1:
                getattr(lg, k)(rec, "text <%d:%s> text", i + 1, "x")
            else:
                getattr(lg, k)(rec, "<%d:%.1s>" if i % 2 else "step %d <" .replace("step %d <", "<%d:%s>"), i + 1, "x")
    except Exception as e:
        oc = "raise " + type(e).__name__
    finally:
        sys.stdout, sys.stderr = so, se
    got = {"rec": [] if case["console"] else _lines(rec.stdout.getvalue()), "out": _lines(out.getvalue()), "err": _lines(err.getvalue())}
    return dict(kind="log", outcome=oc, filled=all(l[2] == "x" for v in got.values() for l in v),
                **{k: [l[:2] for l in v] for k, v in got.items()}, **{k: case[k] for k in ("rank", "verb", "console", "hist")})


def child():
    """Another rank of a parallel program (in its own process: ranks are known when the package is loaded)."""
    import fakempi
    fakempi.install()
    job = json.load(sys.stdin)
    out = []
    real, sys.stdout = sys.stdout, io.StringIO()
    with fakempi.lone_rank(job["rank"], job["size"]):
        oc = "ok"
        try:
            from openms.lib import logger as lg
            import openms.__mpi__ as om
            if job["run"]:
                import qmcrun
                r = qmcrun.build(num_walkers=4, total_time=0.02, property_calc_freq=1, random_seed=3)
                r.kernel()
        except Exception as e:
            oc = "raise " + type(e).__name__
        out.append({"kind": "start", "rank": job["rank"], "size": job["size"], "outcome": oc, "run": job["run"]})
        for i, c in enumerate(job["cases"] if oc == "ok" else []):
            out.append(log_event(lg, c, i))
        for again in range(2 if oc == "ok" else 0):
            buf = sys.stdout = io.StringIO()
            print("<1:x>")
            out.append({"kind": "print", "rank": job["rank"], "shown": bool(_lines(buf.getvalue()))})
            om.configure_print_for_mpi(om.MPI)
    sys.stdout = real
    real.write("RESULT " + json.dumps(out) + "\n")


class OtherRank:
    def __init__(self, rank, size, cases, run=False):
        env = dict(os.environ, PYTHONPATH=vlib.REPO + os.pathsep + os.path.dirname(os.path.abspath(__file__)), VERIF_REPO=vlib.REPO)
        env["NUMBA_DISABLE_JIT"] = "0" if run else "1"
        self.f = tempfile.TemporaryFile("w+")
        self.f.write(json.dumps({"rank": rank, "size": size, "cases": cases, "run": run}))
        self.f.seek(0)
        self.out = tempfile.TemporaryFile("w+")
        self.rank, self.size = rank, size
        self.p = subprocess.Popen([sys.executable, "-c", "import os\nif os.environ['NUMBA_DISABLE_JIT'] == '0': os.environ['C20_JIT'] = '1'\nimport c20; c20.child()"],
                                  stdin=self.f, stdout=self.out, stderr=subprocess.DEVNULL, env=env, cwd=tempfile.gettempdir())

    def events(self):
        try:
            self.p.wait(400)
        finally:
            if self.p.poll() is None:
                self.p.kill()
        self.out.seek(0)
        for ln in self.out.read().splitlines():
            if ln.startswith("RESULT "):
                return json.loads(ln[7:])
        return [{"kind": "start", "rank": self.rank, "size": self.size, "outcome": "no answer (exit %s)" % self.p.returncode, "run": False}]


def class_events(rng, lg, ev, n):
    levels = ["LOG", "CRITICAL", "INFO", "ERROR", "WARNING", "DEBUG", "DEBUGALL"]
    for i in range(n):
        verb = (levels[1:] + ["QUIET"])[i % 7]
        hist = [rng.choice(levels) for _ in range(rng.randint(1, 6))]
        tofile = rng.random() < .6
        d = tempfile.mkdtemp(prefix="log_")
        path = os.path.join(d, "log.txt")
        before = []
        if tofile and rng.random() < .5:
            before = [1]
            with open(path, "w") as f:
                f.write("<901:x>\n")
        so, oc, text, bog = sys.stdout, "ok", "", ""
        buf = sys.stdout = io.StringIO()
        try:
            L = lg.Logger(log_file=path if tofile else buf, verbose=verb)
            for j, l in enumerate(hist):
                getattr(L, l.lower())("<%d:x>" % (j + 1))
            text = buf.getvalue() if not tofile else (open(path).read() if os.path.exists(path) else "")
            try:
                L.log_basic("LOUD", "m")
                bog = "accepted"
            except Exception as e:
                bog = type(e).__name__
        except Exception as e:
            oc = "raise " + type(e).__name__
        finally:
            sys.stdout = so
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
        ids = [l[0] for l in _lines(text)]
        ev.append({"kind": "class", "verb": verb, "hist": hist, "outcome": oc, "bogus": bog, "before": [1 for x in ids if x == 901],
                   "wantbefore": before, "got": [x for x in ids if x != 901]})


def comm_events(rng, ev, n):
    import openms.__mpi__ as om
    M = om.MPI
    w = om.MPIWrapper()
    for c in (M.COMM_WORLD, w.comm, M.COMM_WORLD.Split(color=0, key=0)):
        ev.append({"kind": "world", "rank": c.Get_rank(), "size": c.Get_size(), "rank2": int(w.rank), "size2": int(w.size)})
    comm = M.COMM_WORLD
    ops = ["Allreduce", "allreduce", "Reduce", "Gather", "Gatherv", "GathervSpec", "Allgather", "Bcast", "bcast", "Scatter", "Scatterv",
           "ScattervSpec", "gather", "scatter", "message", "scalar"]
    for i in range(n):
        op = ops[i % len(ops)]
        ln = rng.randint(1, 5)
        vals = [rng.randint(-9, 9) for _ in range(ln)]
        dt = rng.choice([float, complex, int, np.int64])
        a = np.array(vals, dtype=dt)
        if rng.random() < .3 and ln % 2 == 0 and "Spec" not in op:
            a = a.reshape(2, -1)
        r = np.full(a.shape, 77, dtype=dt)
        n0 = a.size
        spec = [[n0], [0], M.COMPLEX16 if dt is complex else M.DOUBLE]
        e = {"kind": "comm", "op": op, "v": vals}

        def go():
            comm.Barrier(); comm.barrier()
            if op == "Allreduce": comm.Allreduce(a, r); return r
            if op == "allreduce": return comm.allreduce(a, op=M.SUM)
            if op == "Reduce": comm.Reduce(a, r, op=M.SUM, root=0); return r
            if op in ("Gather", "Gatherv", "Scatterv", "Scatter"): getattr(comm, op)(a, r, root=0); return r
            if op == "Allgather": comm.Allgather(a, r); return r
            if op == "GathervSpec": comm.Gatherv(a, [r] + spec, root=0); return r
            if op == "ScattervSpec": comm.Scatterv([a] + spec, r, root=0); return r
            if op == "Bcast": comm.Bcast(a, root=0); return a
            if op == "bcast": return comm.bcast(a, root=0)
            if op == "gather": return np.concatenate([np.ravel(x) for x in comm.gather(a, root=0)])
            if op == "scatter": return comm.scatter(a[None], root=0)
            if op == "message":
                q = comm.Isend(a, dest=0, tag=i)
                comm.Recv(r, source=0, tag=i)
                q.wait()
                return r
            if op == "scalar":
                x = [float, int, complex, np.float64, np.complex128][(i // 16) % 5](vals[0])
                return np.array([comm.allreduce(x, op=M.SUM)])
        oc, out = outcome(go)
        if op == "scalar":
            e["op"], e["v"] = "allreduce", vals[:1]
            a = np.array(vals[:1])
        e["outcome"] = "ok" if oc == "ok" else "raise " + str(out)
        e["got"] = proj_list(np.ravel(np.real(out))) if oc == "ok" else []
        e["kept"] = bool(np.array_equal(np.ravel(np.real(a)), e["v"]))
        # (a broadcast's buffer, and what a list of objects holds, are the caller's own)
        e["apart"] = True
        if oc == "ok" and op in ("Allreduce", "allreduce", "Reduce", "Gather", "Gatherv", "GathervSpec", "Allgather", "Scatter", "Scatterv", "ScattervSpec", "message"):
            a[...] = 55
            e["apart"] = e["got"] == proj_list(np.ravel(np.real(out)))
        ev.append(e)


def wrap_events(rng, ev, n):
    from openms.lib import misc
    for i in range(n):
        which = ["deprecated", "wall_time"][i % 2]
        res = rng.choice([7, "text", None, [1, 2], 3.5])
        boom = rng.random() < .25
        seen = []

        def target(x, y=2, *more, key=None):
            seen.append([x, y, list(more), key])
            if boom:
                raise KeyError("k")
            return res
        args = rng.choice([(1,), (1, 3), (1, 3, 4)])
        kw = rng.choice([{}, {"key": 5}])
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            f = getattr(misc, which)(target)
            quietly = len(ws)
            oc, out = outcome(f, *args, **kw)
        e = {"kind": "wrap", "outcome": json.dumps([oc, out]), "want": json.dumps(["raise", "KeyError"] if boom else ["ok", res]),
             "args": json.dumps(seen), "wantargs": json.dumps([[args[0], args[1] if len(args) > 1 else 2, list(args[2:]), kw.get("key")]]),
             "warned": quietly == 0 and sum(issubclass(w.category, DeprecationWarning) for w in ws) == 1 if which == "deprecated" else len(ws) > 0,
             "wantwarn": which == "deprecated", "named": f.__name__ == "target"}
        ev.append(e)


# ---- calculations at every verbosity
def hexes(*xs):
    res = []
    for x in xs:
        a = np.ravel(np.asarray(x))
        for z in a:
            res += [float(np.real(z)).hex(), float(np.imag(z)).hex()] if np.iscomplexobj(a) else [float(z).hex()]
    return res


def calculations(rng, nvar):
    from pyscf import gto
    SHAPE = {"chain": lambda n: [("H", (0.1 * (i % 2), 0.2 * (i % 3), 1.4 * i)) for i in range(n)],
             "line": lambda n: [("H", (0., 0., 1.5 * i)) for i in range(n)],
             "square": lambda n: [("H", (0., 0., 0.)), ("H", (0., 1.8, 0.)), ("H", (1.8, 0., 0.)), ("H", (1.8, 1.8, 0.))],
             "close": lambda n: [("H", (0., 0.1 * (i % 2), 1.6 * i + (3e-4 - 1.6 if i == n - 1 else 0))) for i in range(n)]}

    def mol(v, out, n=4, shape="chain"):
        m = gto.M(atom=SHAPE[shape](n), basis="sto-3g", unit="Bohr", verbose=0)
        m.verbose, m.stdout = v, out
        return m

    def meanfield(name, modes, shape="chain", dark=False, attrs={}, **kw):
        def run(v, out):
            mod = __import__("openms.mqed." + name, fromlist=["RHF"])
            m = mol(v, out, shape=shape)
            vec = np.array([[0.05, 0.02, 0.1], [0.0, 0.08, 0.03]])[:modes]
            if dark:
                vec = np.array([[0.1, 0., 0.], [0., 0.08, 0.]])[:modes]
            mf = mod.RHF(m, cavity_mode=vec, cavity_freq=np.array([0.5, 0.31])[:modes], **kw)
            mf.max_cycle = 40
            for k, x in attrs.items():
                setattr(mf, k, x)
            e = mf.kernel()
            return hexes(e, mf.e_tot, *[x for x in (mf.mo_energy, mf.mo_coeff) if x is not None]), mf.converged
        return run

    def afqmc(**kw):
        def run(v, out):
            import qmcrun
            a = qmcrun.build(verbose=v, random_seed=11, num_walkers=4, total_time=0.04, property_calc_freq=2, **kw)
            a.stdout = out
            a.mol.verbose, a.mol.stdout = v, out
            r = a.kernel()
            w = a.walkers
            return hexes(*[x for x in (r if isinstance(r, (tuple, list)) else [r]) if x is not None and not isinstance(x, (str, dict))],
                         w.weights, w.phiwa), True
        return run

    def chols(v, out):
        from openms.qmc import tools
        m = mol(v, out, 4)
        g = np.ones((1, m.nao_nr(), m.nao_nr())) * 0.2
        return hexes(tools.chols_blocked(m, thresh=1e-6, max_chol_fac=10), tools.chols_blocked(m, thresh=1e-6, max_chol_fac=10, g=g)), True

    def stats(v, out):
        from openms.qmc import tools
        y = np.random.RandomState(3).rand(60)
        r = tools.analysis_autocorr(y, verbose=bool(v > 3))
        return hexes(*[r[k] for k in sorted(r)]), True

    def fci(v, out):
        from openms.mqed import qedfci
        rs = np.random.RandomState(2)
        h = rs.rand(3, 3); h = h + h.T
        eri = np.zeros((3,) * 4)
        for i in range(3):
            for j in range(3):
                eri[i, i, j, j] = 0.3 + 0.2 * (i == j)
        g = rs.rand(1, 3, 3) * 0.2; g = g + g.transpose(0, 2, 1)
        r = qedfci.kernel(h, eri, 3, (1, 1), 1, [3], g, np.array([0.4]), verbose=v)
        return hexes(r[0]), True

    table = {"QED-HF 1": meanfield("qedhf", 1), "QED-HF 2": meanfield("qedhf", 2), "SC": meanfield("scqedhf", 1), "VT": meanfield("vtqedhf", 1),
             "AFQMC": afqmc(), "AFQMC unrestricted local": afqmc(uhf=True, energy_scheme="local"), "AFQMC bosons": afqmc(boson=2),
             "AFQMC open shell": afqmc(nat=3, spin=1), "Cholesky": chols, "statistics": stats, "FCI": fci,
             "SC dark": meanfield("scqedhf", 1, shape="line", dark=True)}
    variants = [(n, m, sh, d, a, k) for n in ("qedhf", "scqedhf", "vtqedhf") for m in ((1, 2) if n == "qedhf" else (1,))
                for sh, d in (("chain", False), ("line", True), ("square", False), ("close", False))
                for a in ({}, {"max_cycle": 1}, {"max_cycle": 0}, {"level_shift": 0.2}, {"diis": False, "max_cycle": 5}, {"conv_check": False})
                for k in ({}, {"use_cs": False}, {"complete_basis": False}, {"origin_shift": [0.3, -0.2, 0.1]}, {"add_nuc_dipole": False}, {"CD_anyway": True})]
    for n, m, sh, d, a, k in rng.sample(variants, nvar):
        k = {x: np.array(y) if isinstance(y, list) else y for x, y in k.items()}
        table["%s %d %s %s %s" % (n, m, sh, a, k)] = meanfield(n, m, shape=sh, dark=d, attrs=a, **k)
    return table


def watch_events(rng, ev, verbs, nvar):
    for name, run in calculations(rng, nvar).items():
        want = None
        for v in verbs:
            out = io.StringIO()
            oc, r = outcome(run, v, out)
            got = [oc] + (r[0] + [str(r[1])] if oc == "ok" else [str(r)])
            want = want or (got if oc == "ok" else ["ok"])
            ev.append({"kind": "watch", "what": name, "verb": v, "got": got, "want": want, "silent": v == 0, "text": bool(out.getvalue())})


def body(chk):
    cases = chk.cases("Report", tier("Report.cfg", "ReportDeep.cfg"), timeout=800)
    rng = random.Random(vlib.SEED * 211 + 20)
    from openms.lib import logger as lg
    ev, kinds = [], ["log", "error", "warn", "note", "info", "debug", "debug1", "debug2", "debug3", "debug4", "stdout"]
    mine = [c for c in cases if c["rank"] == 0]
    rest = [c for c in cases if c["rank"] != 0]
    if len(mine) > 6000:
        mine = rng.sample(mine, 6000)
    for _ in range(tier(150, 1500)):
        mine.append({"rank": 0, "verb": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]), "console": rng.random() < .4,
                     "hist": [rng.choice(kinds) for _ in range(rng.randint(3, 9))]})
    others = [OtherRank(1, 2, [], run=True)]
    for r, size in ((1, 2), (3, 4)):
        others.append(OtherRank(r, size, [dict(c, rank=r) for c in rng.sample(rest, min(len(rest), tier(400, 1500)))]))
    others.append(OtherRank(0, 2, rng.sample(mine, 200)))
    for i, c in enumerate(mine):
        ev.append(log_event(lg, c, i))
    ev.append({"kind": "print", "rank": 0, "shown": _shown()})
    class_events(rng, lg, ev, tier(140, 1400))
    comm_events(rng, ev, tier(320, 3200))
    wrap_events(rng, ev, tier(60, 600))
    watch_events(rng, ev, tier([3, 0, 1, 4, 5, 6, 9], [3, 0, 1, 2, 4, 5, 6, 7, 8, 9, 15]), tier(12, 150))
    for o in others:
        ev += o.events()
    chk.validate("ReportTrace", "ReportTrace.cfg", ev, timeout=800)
    chk.assumptions += ["parallel ranks are simulated processes without communication (no MPI installed)",
                        "what warnings of ranks other than the first do on the error stream is not judged"]


def _shown():
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        print("<1:x>")
        return bool(_lines(sys.stdout.getvalue()))
    finally:
        sys.stdout = so

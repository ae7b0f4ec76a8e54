"""Sessions: calculations that share inputs and a process do not disturb each other."""
import hashlib, json, os, random
os.environ["NUMBA_DISABLE_JIT"] = "1"   # tiny systems: compiling costs more than it saves (C07 compares the kernels)
import numpy as np
from vlib import tier, SEED, proj, TlcError, quiet

AFQ = dict(dt=0.01, total_time=0.12, num_walkers=6, energy_scheme="hybrid", chol_thresh=1e-8, verbose=0, property_calc_freq=3)


class Workspace:
    """Everything the caller owns."""

    def __init__(self):
        from pyscf import gto, scf
        self.mol = gto.M(atom="H 0 0 0; F 0 0.1 1.7", basis="sto-3g", unit="Bohr", verbose=0)
        self.hmol = gto.M(atom=[("H", (1.8 * i, 0.0, 0.4 * (i % 2))) for i in range(4)], basis="sto-3g", unit="Bohr", verbose=0)
        self.mf = scf.RHF(self.hmol)
        self.mf.verbose = 0
        self.mf.kernel()
        n = self.hmol.nao_nr()
        rng = np.random.RandomState(5)
        g = rng.rand(2, n, n) * 0.3
        self.gmat = g + g.transpose(0, 2, 1)
        self.freq1 = np.array([0.5, 0.3])
        self.freq2 = np.array([1.7, 2.3])
        self.walker_options = {"nwalkers": 4, "weight_max": 3.0, "weight_min": 0.2}
        self.propagator_options = {"bias_bound": 0.4, "taylor_order": 4}
        self.prop_dec = {"decouple_bilinear": True, "decouple_scheme": 2}
        self.omega = np.array([0.5])
        self.vec = np.array([[0.0, 0.05, 0.2]])
        self.omega2 = np.array([0.3, 0.8])
        self.vec2 = np.array([[0.0, 0.1, 0.1], [0.1, 0.0, 0.05]])
        self.gfac2 = np.array([0.1, 0.2])
        self.cv = np.array([0.4])
        self.sq = np.array([0.2])
        self.nbs = [3]
        self.dm0 = scf.RHF(self.mol).get_init_guess(key="hcore")
        self.eri = self.hmol.intor("int2e")
        self.h1 = np.array([[-1.0, 0.3], [0.3, -0.4]])
        e = np.zeros((2, 2, 2, 2))
        e[0, 0, 0, 0] = 0.7; e[1, 1, 1, 1] = 0.6
        e[0, 0, 1, 1] = e[1, 1, 0, 0] = 0.5
        for i in ((0, 1, 0, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 0, 1, 0)):
            e[i] = 0.1
        self.h2 = e
        self.heb = np.array([[[0.1, 0.05], [0.05, -0.2]], [[0.0, 0.1], [0.1, 0.1]]])
        self.hbb = np.array([0.6, 0.9])
        self.hbb2 = np.diag([0.6, 0.9])
        self.series = rng.rand(50)
        self.afac = np.array([1.0, 1.0]); self.bfac = np.array([0.5, 0.4])
        self.orb = np.linalg.qr(rng.rand(4, 4))[0]

    NOT = ("mol", "hmol", "mf")

    def digest(self):
        """name -> digest of every caller-owned input."""
        out = {}

        def h(x):
            if isinstance(x, np.ndarray):
                return hashlib.sha1(x.tobytes() + repr((x.shape, str(x.dtype))).encode()).hexdigest()[:12]
            if isinstance(x, dict):
                return repr(sorted((k, h(v)) for k, v in x.items()))
            if isinstance(x, (list, tuple)):
                return repr([h(v) for v in x])
            return repr(x)
        for k, v in self.__dict__.items():
            if k not in self.NOT:
                out[k] = h(v)
        for k in ("mol", "hmol"):
            m = getattr(self, k)
            out[k] = h([m._atm, m._bas, m._env, m.atom, m.basis, m.charge, m.spin, m.nelectron, m.verbose, m.nao_nr()])
        out["mf"] = h([np.array(self.mf.mo_coeff), np.array(self.mf.mo_energy), np.array(self.mf.mo_occ), float(self.mf.e_tot)])
        return out


def flat(*xs):
    r = []
    for x in xs:
        a = np.asarray(x)
        if a.dtype.kind in "bi":
            a = a.astype(float)
        if a.dtype.kind == "c":
            r += [float(v) for v in a.real.ravel()] + [float(v) for v in a.imag.ravel()]
        else:
            r += [float(v) for v in a.ravel()]
    if len(r) > 60:
        v = np.array(r)
        k = np.arange(1, len(v) + 1)
        r = r[:20] + [float(v.sum()), float((v * v).sum()), float((v * np.cos(k)).sum()), float((v * np.sin(2 * k)).sum())]
    return [proj(v, 1e6, 1.0) for v in r]


def afq(w, **kw):
    from openms.qmc.afqmc import AFQMC
    kw.setdefault("mf", w.mf)
    o = dict(AFQ)
    o.update(kw)
    mc = AFQMC(w.hmol, **o)
    return lambda: flat(*mc.kernel())


def boson(w, freq, **kw):
    return afq(w, boson_freq=freq, gmat=w.gmat, nphoton=3, **kw)


def scf(w, mod, dm0=None, varf=False, vsq=False, **kw):
    import importlib
    m = importlib.import_module("openms.mqed." + mod)
    if "qed" not in kw:
        kw.setdefault("cavity_freq", w.omega)
        kw.setdefault("cavity_mode", w.vec)
    mf = m.RHF(w.mol, **kw)
    if vsq:
        mf.qed.optimize_vsq = True
        mf.precond = 5e-3
    if varf:
        mf.qed.optimize_varf = True
    mf.verbose = 0
    mf.max_cycle = 60
    mf.chkfile = None

    def run():
        e = mf.kernel() if dm0 is None else mf.kernel(dm0=dm0)
        r = flat(e, mf.e_tot, mf.mo_energy)
        return r
    return run


def shared_qed(w):
    from openms.lib import boson as bl
    return scf(w, "qedhf", qed=bl.Photon(w.mol, omega=w.omega2, vec=w.vec2, gfac=w.gfac2))


BUILD = {
    "afq": lambda w: afq(w),
    "afq_opt": lambda w: afq(w, num_walkers=None, walker_options=w.walker_options, propagator_options=w.propagator_options, pop_control_method="comb", pop_control_freq=2, chol_thresh=1e-3),
    "afq_def": lambda w: afq(w, num_walkers=None),
    "afq_b1": lambda w: boson(w, w.freq1),
    "afq_b2": lambda w: boson(w, w.freq2),
    "afq_uhf": lambda w: afq(w, uhf=True, energy_scheme="local"),
    "afq_dec": lambda w: boson(w, w.freq1, propagator_options=w.prop_dec),
    "hf": lambda w: scf(w, "qedhf"),
    "hf2": lambda w: scf(w, "qedhf", cavity_freq=w.omega2, cavity_mode=w.vec2),
    "hf_dm": lambda w: scf(w, "qedhf", dm0=w.dm0),
    "sc": lambda w: scf(w, "scqedhf"),
    "vt": lambda w: scf(w, "vtqedhf"),
    "vt_f": lambda w: scf(w, "vtqedhf", couplings_var=w.cv),
    "vt_sq": lambda w: scf(w, "vtqedhf", vsq=True, squeezed_var=w.sq),
    "vt_fopt": lambda w: scf(w, "vtqedhf", varf=True, couplings_var=w.cv),
    "hf_qed": shared_qed,
}


def c_photon(w, omega, vec, gfac=None):
    from openms.lib import boson as bl
    kw = dict(omega=omega, vec=vec)
    if gfac is not None:
        kw["gfac"] = gfac
    p = bl.Photon(w.mol, **kw)
    p.get_gmatao()
    return flat(p.gmat, p.omega, p.vec, p.gfac)


def c_chols(w, g=None):
    from openms.qmc import tools
    L = tools.chols_full(w.hmol, eri=w.eri, thresh=1e-8, g=g)
    B = tools.chols_blocked(w.hmol, thresh=1e-8, g=g)
    return flat(np.einsum("npq,nrs->pqrs", L, L), np.einsum("npq,nrs->pqrs", B, B))


def c_bil(w):
    from openms.qmc import tools
    a, b = tools.bilinear_decomposition(w.afac, w.bfac, w.gmat, 1)
    return flat(a, b)


def c_fci(w, hbb):
    from openms.mqed import qedfci
    e = qedfci.kernel(w.h1, w.h2, 2, (1, 1), 2, [3, 3], w.heb, hbb, verbose=0)
    return flat(e[0], e[1])


def c_stats(w):
    from openms.qmc import tools
    return flat(*tools.get_mean_std(w.series, 3)) + flat(tools.get_autocorr_time(w.series), tools.remove_outliers(w.series, threshold=1.2))


def c_hub(w):
    from openms.models.hubbard import Hubbard1D
    h = Hubbard1D(4, 4, 2.0, bc="p", ca=w.orb, cb=w.orb)
    return flat(h.hf_energy(), h.g_fock().oo, h.g_aint().oovv)


def c_pyscf(w):
    from pyscf import scf as pscf
    m = pscf.RHF(w.mol)
    m.verbose = 0
    m.chkfile = None
    return flat(m.kernel(), m.mo_energy)


CALL = {
    "photon": lambda w: c_photon(w, w.omega, w.vec),
    "photon2": lambda w: c_photon(w, w.omega2, w.vec2, w.gfac2),
    "chols": lambda w: c_chols(w),
    "chols_g": lambda w: c_chols(w, w.gmat),
    "bilinear": c_bil,
    "fci": lambda w: c_fci(w, w.hbb),
    "fci2": lambda w: c_fci(w, w.hbb2),
    "stats": c_stats,
    "hubbard": c_hub,
    "own_mf": lambda w: afq(w, mf=None)(),
    "pyscf": c_pyscf,
}


def session(hist):
    """Run one history in this process; the recorded events."""
    w = Workspace()
    d0 = w.digest()
    slots, evs = {}, []
    for op in hist:
        status, res = "ok", []
        try:
            with quiet():
                if op["op"] == "build":
                    slots[op["slot"]] = BUILD[op["key"]](w)
                elif op["op"] == "run":
                    res = slots.pop(op["slot"])()
                elif op["op"] == "call":
                    res = CALL[op["key"]](w)
                else:
                    np.random.rand(7)
        except Exception as e:  # noqa
            status = type(e).__name__ + ": " + str(e)[:80]
        d = w.digest()
        ch = sorted(k for k in d0 if d[k] != d0[k])
        evs.append({"op": op["op"], "key": op["key"], "status": status, "result": res, "tol": 3,
                    "inputs": 1 if ch else 0, "inputs0": 0, "changed": ",".join(ch)})
        if status != "ok":
            slots.pop(op.get("slot"), None)
            break
    return evs


def alone(key):
    if key in BUILD:
        return session([{"op": "build", "slot": 1, "key": key}, {"op": "run", "slot": 1, "key": key}])
    return session([{"op": "call", "slot": 0, "key": key}])


def work(job):
    kind, arg = job
    return alone(arg) if kind == "alone" else session(arg)


def body(chk):
    import multiprocessing as mp
    chk.model("Session", "SessionDeep.cfg" if tier(0, 1) else "Session.cfg")
    n = tier(8, 48)
    hists = chk.cases("Session", "SessionGen.cfg", simulate=n, depth=40, workers=1)[:n]
    # every ordered pair of calculations, alive at the same time or one after the other
    pairs = chk.cases("Session", "SessionPairs.cfg", workers=1)
    random.Random(SEED).shuffle(pairs)
    k = 24
    hists += [sum(pairs[i::k], []) for i in range(k)]
    keys = list(BUILD) + list(CALL)
    # every kind once alone in a fresh process
    import openms.qmc.afqmc, openms.mqed.vtqedhf, openms.mqed.qedfci, openms.models.hubbard  # noqa: imported, not used
    jobs = [("alone", k) for k in keys] + [("session", h) for h in hists]
    order = sorted(range(len(jobs)), key=lambda i: 0 if jobs[i][0] == "session" else (1 if "afq" in jobs[i][1] or "own" in jobs[i][1] else 2))
    res = [None] * len(jobs)
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        fut = {i: pool.apply_async(work, (jobs[i],)) for i in order}
        for i in fut:
            res[i] = fut[i].get(timeout=800)
    first = {}
    traces = []
    for (kind, arg), evs in zip(jobs, res):
        if kind == "alone":
            first[arg] = evs[-1]["result"]
    for (kind, arg), evs in zip(jobs, res):
        need = {e["key"] for e in evs if e["key"] in first}
        traces.append({"run": json.dumps(arg) if kind == "alone" else "session", "first": {k: first[k] for k in need} or {"none": []}, "events": evs})
    chk.validate("SessionTrace", "SessionTrace.cfg", traces)
    chk.assumptions += [
        "A session is a single-threaded process; files and environment are not part of it.",
        "Caches are allowed: only inputs and results are compared, not the library's own module state.",
    ]

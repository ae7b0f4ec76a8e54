"""C07 - one phaseless propagation step: walkers, hybrid energy, weights."""
import random, types
import numpy as np
import vlib
from vlib import tier
import qmcfix

S = 10000


def q4(x):
    """round to four decimals"""
    x = np.asarray(x)
    return np.round(x * S) / S


def ri(x):
    x = float(x) * S
    if not abs(x) < 1.5e9:
        return vlib.NOTINT
    return int(round(x))


def cx(z):
    z = complex(z)
    return [ri(z.real), ri(z.imag)]


def mat(m):
    return [[cx(x) for x in r] for r in np.asarray(m)]


class ScriptedNormals:
    """numpy.random normal draws served from a given flat stream."""

    def __init__(self, stream):
        self.stream, self.pos = np.asarray(stream, float).ravel(), 0

    def _take(self, size):
        if size is None:
            self.pos += 1
            return float(self.stream[self.pos - 1])
        n = int(np.prod(size))
        r = self.stream[self.pos:self.pos + n]
        self.pos += n
        return r.reshape(size).copy()

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._take(size)

    def standard_normal(self, size=None, **k):
        return self._take(size)

    def randn(self, *shape):
        return self._take(shape if shape else None)

    def __enter__(self):
        self.saved = [(n, getattr(np.random, n)) for n in ("normal", "standard_normal", "randn", "default_rng")]
        for n in ("normal", "standard_normal", "randn"):
            setattr(np.random, n, getattr(self, n))
        np.random.default_rng = lambda *a, **k: self
        return self

    def __exit__(self, *a):
        for n, v in self.saved:
            setattr(np.random, n, v)


def rsym(rng, n, amp):
    m = np.array([[rng.uniform(-amp, amp) for _ in range(n)] for _ in range(n)])
    return q4((m + m.T) / 2)


def orth(rng, n, k):
    m = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    return q4(np.linalg.qr(m)[0][:, :k])


_mols = {}


def _mol(key):
    if key not in _mols:
        _mols[key] = qmcfix.hmol(*key)
    return _mols[key]


def walker_near(rng, psi, amp):
    n = np.array([[rng.uniform(-1, 1) + 1j * rng.uniform(-1, 1) for _ in range(psi.shape[1])] for _ in range(psi.shape[0])])
    return q4(psi + amp * n)


def normed(v):
    return v / np.linalg.norm(v)


def step(rng):
    from openms.qmc import generic_walkers as gw
    from openms.qmc.propagators import Phaseless, PhaselessElecBoson
    ncomp = rng.choice([1, 2])
    nao = rng.choice([2, 2, 3])
    na = rng.randint(1, min(2, nao - 1))
    nb = na if ncomp == 1 else rng.randint(1, na)
    nw = rng.choice([1, 2])
    boson = rng.random() < 0.5
    nf = rng.choice([1, 2, 3])
    dt = rng.choice([0.09, 0.16, 0.25])
    rdt = round(dt ** 0.5, 4)
    psia = orth(rng, nao, na)
    psib = psia if ncomp == 1 else orth(rng, nao, nb)
    hs = [rsym(rng, nao, 0.8)]
    if ncomp == 2:
        hs = [hs[0], rsym(rng, nao, 0.8) if rng.random() < 0.4 else hs[0]]
    ls = np.array([rsym(rng, nao, 0.7) for _ in range(nf)])
    order = rng.choice([1, 2, 3, 6, 6])
    fb = rng.choice([1.0, 1.0, 0.5, 0.1, 0.02])
    amp = rng.choice([0.1, 0.4, 0.8])
    kw = dict(verbose=0, taylor_order=order, bias_bound=fb)
    dims = cpsi = None
    if boson:
        nm = rng.choice([1, 2])
        dims = [rng.choice([2, 3]) for _ in range(nm)]
        om = q4([rng.uniform(0.2, 1.5) for _ in range(nm)])
        geb = np.array([rsym(rng, nao, 0.6) for _ in range(nm)])
        cpsi = q4(normed(np.array([rng.uniform(-1, 1) for _ in range(sum(dims))])))
        cphi = np.array([q4(normed(cpsi + 0.6 * np.array([rng.uniform(-1, 1) + 1j * rng.uniform(-.5, .5) for _ in range(sum(dims))]))) for _ in range(nw)])
    tr = qmcfix.make_trial(nao, na, nb, ncomp, psia=psia, psib=psib, boson_psi=cpsi, mol=_mol((nao, na, nb)))
    h1 = np.array(hs)
    tr.half_rotate_integrals(h1, ls)
    if boson:
        tr.mol.nmodes, tr.mol.nboson_states = len(dims), dims
    for _ in range(200):
        pa = [walker_near(rng, psia, amp) for _ in range(nw)]
        pb = pa if ncomp == 1 else [walker_near(rng, psib, amp) for _ in range(nw)]
        o = [np.linalg.det(psia.T @ a) * np.linalg.det(psib.T @ b) for a, b in zip(pa, pb)]
        parts = [abs(np.linalg.det(psia.T @ a)) for a in pa] + [abs(np.linalg.det(psib.T @ b)) for b in pb]
        if boson:
            o = [x * (cpsi @ c) for x, c in zip(o, cphi)]
            parts += [abs(cpsi @ c) for c in cphi]
        if all(0.35 < abs(x) < 2.5 for x in o) and min(parts) > 0.35:
            break
        amp *= 0.9
    else:
        return None
    with vlib.quiet():
        wk = gw.make_walkers(tr, {"nwalkers": nw})
    for i in range(nw):
        wk.phiwa[i] = pa[i]
        if ncomp > 1:
            wk.phiwb[i] = pb[i]
        if boson:
            wk.boson_phiw[i] = cphi[i]
    w = q4([rng.uniform(0.3, 2.0) for _ in range(nw)])
    ehold = q4([rng.uniform(-2, 2) for _ in range(nw)])
    wk.weights, wk.ehybrid = w.copy(), ehold.copy()
    xi = q4([[rng.gauss(0, 1) for _ in range(nf)] for _ in range(nw)])
    eshift = float(q4(rng.uniform(-2, 2)))
    if boson:
        pr = PhaselessElecBoson(dt, nbarefields=nf, **kw)
        pr.system = types.SimpleNamespace(nmodes=len(dims), nboson_states=dims, boson_freq=om)
    else:
        pr = Phaseless(dt, **kw)
    sysd = {"psia": mat(psia), "psib": mat(psib), "hs": [mat(h) for h in hs], "ls": [mat(x) for x in ls], "dt": ri(dt), "rdt": ri(rdt),
            "ebound": ri((2.0 / dt) ** 0.5), "order": order, "fbound": ri(fb), "ncomp": ncomp, "boson": boson}
    split = lambda v: [[cx(x) for x in v[s:s + d]] for s, d in zip(np.cumsum([0] + dims[:-1]), dims)]
    if boson:
        sysd.update(om=[ri(x) for x in om], geb=[mat(g) for g in geb], bpsi=split(cpsi))
    ev = {"kind": "step", "sys": sysd, "eshift": ri(eshift), "etol": int(220 + 25 / dt), "outcome": "ok",
          "walkers": [dict(phia=mat(pa[i]), phib=mat(pb[i]), xi=[ri(x) for x in xi[i]], w=ri(w[i]), eh=ri(ehold[i]),
                           bphi=split(cphi[i]) if boson else []) for i in range(nw)], "after": []}
    try:
        with vlib.quiet(), np.errstate(all="ignore"), ScriptedNormals(xi):
            pr.build(h1, ls, tr, geb) if boson else pr.build(h1, ls, tr)
            pr.propagate_walkers(tr, wk, ls, eshift=np.float64(eshift))
    except Exception as e:  # noqa
        ev["outcome"] = "raise " + type(e).__name__ + " " + str(e)[:200]
        return ev
    ov = np.array(wk.ovlp)
    rat = ov / np.array(o)
    if not all(0.2 < abs(r) < 3.0 for r in rat) or not all(0.05 < abs(x) < 3.0 for x in ov):
        if rng.random() < 0.98:
            return None        # outside the range four decimals can judge
    eh = np.real(np.array(wk.ehybrid))
    for i in range(nw):
        fa = np.array(wk.phiwa)[i]
        fbm = np.array(wk.phiwb)[i] if ncomp > 1 else fa
        ev["after"].append(dict(phia=mat(fa), phib=mat(fbm), ovlp=cx(ov[i]), eh=ri(eh[i]), g=ri(wk.weights[i] / w[i]),
                                bphi=split(np.array(wk.boson_phiw)[i]) if boson else []))
    return ev


class W:
    pass


def weight(rng, kind):
    """update_weight on given overlaps and factors."""
    from openms.qmc.propagators import Phaseless
    dt = rng.choice([0.02, 0.08, 0.16, 0.5])
    pr = Phaseless(dt, verbose=0, energy_scheme=kind if kind == "local" else "hybrid")
    n = rng.choice([1, 3])
    pol = lambda lo, hi: (lambda r, t: q4(r * np.cos(t)) + 1j * q4(r * np.sin(t)))(rng.uniform(lo, hi), rng.uniform(-3.2, 3.2))
    ov = np.array([pol(0.8, 1.2) for _ in range(n)])
    nov = np.array([pol(0.5, 2.0) for _ in range(n)])
    rat = nov / ov
    sm = dt if rng.random() < 0.6 else 1.0
    cfb = np.array([float(q4(rng.uniform(-1.5, 1.5) * sm)) + 1j * float(q4(rng.uniform(-2, 2))) for _ in range(n)])
    cmf = np.array([float(q4(rng.uniform(-1.5, 1.5) * sm)) + 1j * float(q4(rng.uniform(-3, 3))) for _ in range(n)])
    # keep part of the energies inside the bound
    if rng.random() < 0.6:
        cfb = cfb - q4(np.log(abs(rat)))
    eshift = float(q4(rng.uniform(-2, 2)))
    wk = W()
    w = q4([rng.uniform(0.2, 3) for _ in range(n)])
    wk.weights = w.copy()
    wk.ehybrid = q4([rng.uniform(-3, 3) for _ in range(n)])
    wk.eloc = q4([rng.uniform(-3, 3) for _ in range(n)]) + 1j * q4([rng.uniform(-3, 3) for _ in range(n)])
    wk.ovlp, wk.nwalkers = ov.copy(), n
    ehold, eloc = wk.ehybrid.copy(), wk.eloc.copy()
    es = np.float64(eshift) if rng.random() < 0.5 else np.complex128(eshift)
    oc = "ok"
    try:
        with np.errstate(all="ignore"):
            pr.update_weight(wk, ov.copy(), nov.copy(), cfb.copy(), cmf.copy(), es)
    except Exception as e:  # noqa
        oc = "raise " + type(e).__name__ + str(e)[:200]
    out = []
    for i in range(n):
        ev = {"kind": "weight" if kind != "local" else "local", "outcome": oc, "sys": {"dt": ri(dt), "ebound": ri((2 / dt) ** .5)}, "R": cx(rat[i]), "cfb": cx(cfb[i]),
              "cmf": cx(cmf[i]), "ehold": ri(ehold[i]), "eshift": ri(eshift), "etol": int(60 + 12 / dt), "eloc": ri(eloc[i].real)}
        if oc == "ok":
            ev.update(eh=ri(np.real(wk.ehybrid[i])), g=ri(np.real(wk.weights[i]) / w[i]))
            if abs(np.imag(wk.weights[i])) > 1e-9:
                ev["g"] = vlib.NOTINT
        out.append(ev)
    return out


def unknown(rng):
    from openms.qmc.propagators import Phaseless
    name = rng.choice(["Hybrid", "", "none", "locale", "mixed", "hybrid "])
    pr = Phaseless(0.1, verbose=0, energy_scheme=name)
    wk = W()
    wk.weights, wk.ehybrid, wk.eloc, wk.ovlp = np.ones(2), np.zeros(2), np.zeros(2), np.ones(2, complex)
    try:
        pr.update_weight(wk, np.ones(2, complex), np.ones(2, complex), np.zeros(2, complex), np.zeros(2, complex), np.float64(0))
        return {"kind": "raises", "outcome": "ok", "name": name}
    except Exception as e:  # noqa
        return {"kind": "raises", "outcome": type(e).__name__, "name": name}


def bias(rng):
    from openms.qmc.propagators import Phaseless
    b = rng.choice([1.0, 1.0, 0.5, 2.0, 0.1])
    pr = Phaseless(0.1, verbose=0, bias_bound=b)
    shape = (rng.choice([1, 3]), rng.choice([1, 4]))
    f = q4(np.array([[rng.choice([0, rng.uniform(-1, 1), rng.uniform(-3, 3)]) + 1j * rng.choice([0, rng.uniform(-1, 1), rng.uniform(-3, 3)]) for _ in range(shape[1])] for _ in range(shape[0])]))
    ev = {"kind": "bias", "bound": ri(b), "before": [cx(x) for x in f.ravel()], "outcome": "ok"}
    try:
        with np.errstate(all="ignore"):
            ev["after"] = [cx(x) for x in np.asarray(pr.rescale_fbias(f.copy())).ravel()]
    except Exception as e:  # noqa
        ev["outcome"] = "raise " + str(e)[:100]
    return ev


def ortho(rng):
    """orthonormalisation of the driver's walkers."""
    import qmcrun
    boson = rng.choice([0, 0, 1])
    uhf = rng.random() < 0.5
    nat = rng.choice([2, 3, 4])
    kw = dict(nat=nat, spin=nat % 2, num_walkers=2, total_time=0.02, boson=boson, uhf=uhf or nat % 2 == 1)
    with vlib.quiet():
        q = qmcrun.build(**kw)
    wk = q.walkers
    c = lambda s: q4((np.array([rng.uniform(-1, 1) for _ in range(int(np.prod(s)))]) + 1j * np.array([rng.uniform(-1, 1) for _ in range(int(np.prod(s)))])).reshape(s))
    wk.phiwa[...] = c(wk.phiwa.shape)
    if wk.ncomponents > 1:
        wk.phiwb[...] = c(wk.phiwb.shape)
    if boson:
        wk.boson_phiw = c(wk.boson_phiw.shape) * (0.5 if rng.random() < .5 else 1)
        if rng.random() < 0.5:
            wk.boson_phiw = np.real(wk.boson_phiw) + 0j
    before = [np.array(wk.phiwa), np.array(wk.phiwb) if wk.ncomponents > 1 else None, np.array(wk.boson_phiw) if boson else None]
    oc = "ok"
    o0 = q4(np.array([complex(rng.uniform(0.5, 1.5), rng.uniform(-1, 1)) for _ in range(2)]))
    wk.ovlp = o0.copy()
    try:
        with vlib.quiet():
            q.orthogonalization()
    except Exception as e:  # noqa
        oc = "raise " + type(e).__name__ + str(e)[:100]
    res = []
    for i in range(2):
        spins = [(b, a) for b, a in ((before[0], wk.phiwa), (before[1], wk.phiwb)) if b is not None and b.shape[2] > 0]
        dets = [abs(np.linalg.det(np.asarray(a)[i].conj().T @ b[i])) for b, a in spins]
        if all(d > 0.02 for d in dets) and all(b.shape[2] < 4 for b, _ in spins):
            res.append({"kind": "factor", "outcome": oc, "before": [mat(b[i]) for b, a in spins], "after": [mat(np.array(a)[i]) for b, a in spins],
                        "det": cx(np.ravel(wk.detR)[i]), "logdet": cx(np.ravel(wk.log_detR)[i]), "o0": cx(o0[i]), "o1": cx(np.ravel(wk.ovlp)[i])})
        for b, a in ((before[0], wk.phiwa), (before[1], wk.phiwb)):
            if b is not None and b.shape[2] > 0:
                res.append({"kind": "ortho", "outcome": oc, "before": mat(b[i]), "after": mat(np.array(a)[i]), "unit": True})
        if boson:
            res.append({"kind": "ortho", "outcome": oc, "before": mat(before[2][i][:, None]), "after": mat(np.array(wk.boson_phiw)[i][:, None]), "unit": True})
    return res


def acts(rng):
    """the exponential and one-body kernels: native, compiled, selected."""
    import openms.qmc.propagators as P
    nw, n, k = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2])
    order = rng.choice([0, 1, 2, 3, 6])
    c = lambda *s: q4((np.array([rng.uniform(-.7, .7) for _ in range(int(np.prod(s)))]) + 1j * np.array([rng.uniform(-.7, .7) for _ in range(int(np.prod(s)))])).reshape(s))
    op, phi = c(nw, n, n), c(nw, n, k)
    res = []
    for name in ("propagate_exp_op", "propagate_exp_op_numba", "propagate_HS_kernel"):
        fn = getattr(P, name, None)
        if fn is None:
            continue
        a = phi.copy()
        oc = "ok"
        try:
            with vlib.quiet():
                r = fn(a, op.copy(), order)
                if r is None:
                    r = a
        except Exception as e:  # noqa
            oc, r = "raise " + str(e)[:100], a
        for i in range(nw):
            res.append({"kind": "act", "fn": name, "outcome": oc, "M": mat(op[i]), "phi": mat(phi[i]), "order": order, "result": mat(r[i])})
        # the walkers are updated in place by the step, so the argument must carry the result too
        res.append({"kind": "act", "fn": name + " in place", "outcome": oc, "M": mat(op[0]), "phi": mat(phi[0]), "order": order, "result": mat(a[0])})
    return res


def body(chk):
    rng = random.Random(vlib.SEED + 7)
    chk.model("Step", tier("Step.cfg", "StepDeep.cfg"), timeout=tier(400, 3000))
    ev = []
    n, tries = tier(150, 1500), 0
    while sum(e["kind"] == "step" for e in ev) < n and tries < 40 * n:
        tries += 1
        e = step(rng)
        if e:
            ev.append(e)
    for _ in range(tier(150, 2000)):
        ev += weight(rng, "hybrid")
    for _ in range(tier(60, 600)):
        ev += weight(rng, "local")
    for _ in range(tier(12, 60)):
        ev.append(unknown(rng))
    for _ in range(tier(60, 500)):
        ev.append(bias(rng))
    for _ in range(tier(40, 300)):
        ev += acts(rng)
    for _ in range(tier(25, 200)):
        ev += ortho(rng)
    chk.validate("StepTrace", "StepTrace.cfg", ev, timeout=tier(600, 3000))
    chk.assumptions = ["four-decimal arithmetic: deviations below the stated tolerances (0.006 in orbitals) are not seen",
                       "trial orbitals orthonormal, field operators real symmetric"]

"""C06 - mixed estimators of trial and walkers, exact on integer determinants."""
import random, types
from math import factorial
import numpy as np
import vlib
from vlib import tier
import qmcfix, qmcrun

BIG = 2.0e6


def cproj(v, scale=1):
    v = complex(v) * scale
    return [vlib.proj(v.real), vlib.proj(v.imag)]


def cint(m):
    return [[[int(round(complex(x).real)), int(round(complex(x).imag))] for x in r] for r in np.asarray(m)]


def cmat(m, scale=1):
    return [[cproj(x, scale) for x in r] for r in np.asarray(m)]


def unimod(rng, n, cplx):
    m = np.eye(n, dtype=complex)
    mi = np.eye(n, dtype=complex)
    for _ in range(n + 1):
        i, j = rng.sample(range(n), 2) if n > 1 else (0, 0)
        if i == j:
            continue
        c = rng.choice([1, -1] + ([1j, -1j] if cplx else []))
        e = np.eye(n, dtype=complex)
        e[i, j] = c
        einv = np.eye(n, dtype=complex)
        einv[i, j] = -c
        m, mi = m @ e, einv @ mi
    return m, mi


def small(rng, r, c, cplx=False, lo=-1, hi=1):
    m = np.array([[rng.randint(lo, hi) for _ in range(c)] for _ in range(r)], dtype=complex).reshape(r, c)
    if cplx:
        m = m + 1j * np.array([[rng.choice([0, 0, 1, -1]) for _ in range(c)] for _ in range(r)]).reshape(r, c)
    return m


def sym(rng, n):
    m = np.array([[rng.randint(-1, 1) for _ in range(n)] for _ in range(n)], dtype=float)
    return np.triu(m) + np.triu(m, 1).T


def spin_set(rng, nao, no, nw, unit, cplx):
    """trial orbitals and nw walkers; overlaps of modulus one when unit."""
    if no == 0:
        return np.zeros((nao, 0)), [np.zeros((nao, 0), complex)] * nw
    if unit:
        m, mi = unimod(rng, nao, cplx)
        psi = m[:, :no]
        ph = []
        for _ in range(nw):
            u, _ = unimod(rng, no, cplx)
            d = mi.conj().T
            ph.append(d[:, :no] @ u + d[:, no:] @ small(rng, nao - no, no, cplx))
        return psi, ph
    while True:
        psi = small(rng, nao, no)
        ph = [small(rng, nao, no, cplx) for _ in range(nw)]
        ds = [abs(np.linalg.det(psi.conj().T @ p)) ** 2 for p in ph]
        if all(0.5 < d < 20 for d in ds):
            return psi, ph


class TooBig(Exception):
    pass


def event(rng):
    from openms.qmc import generic_walkers as gw
    from openms.qmc.propagators import Phaseless, PhaselessElecBoson
    ncomp = rng.choice([1, 2])
    nao = rng.choice([2, 3, 3, 4])
    na = rng.randint(1, min(3, nao))
    nb = na if ncomp == 1 else rng.randint(1, min(3, na))
    unit = rng.random() < 0.6
    nw = rng.choice([1, 2, 3]) if unit else 1
    cplx = rng.random() < 0.5
    psia, pha = spin_set(rng, nao, na, nw, unit, cplx)
    if ncomp == 1:
        psib, phb = psia, pha
    else:
        psib, phb = spin_set(rng, nao, nb, nw, unit, cplx)
    if not np.any(np.iscomplex(psia)) and not np.any(np.iscomplex(psib)):
        psia, psib = np.real(psia), np.real(psib)
    boson = rng.random() < 0.5
    h, ls = sym(rng, nao), np.array([sym(rng, nao) for _ in range(rng.choice([1, 2, 3]))])
    enuc = rng.randint(-3, 3)
    bphi = None
    dims = om = geb = amps = bpsi = None
    if boson:
        nm = rng.choice([1, 2, 3])
        dims = [rng.choice([2, 3, 4]) for _ in range(nm)]
        if rng.random() < 0.5:
            dims = [dims[0]] * nm
        om = np.array([float(rng.randint(1, 3)) for _ in range(nm)])
        geb = np.array([sym(rng, nao) for _ in range(nm)])
        root = np.concatenate([[np.sqrt(factorial(k)) for k in range(d)] for d in dims])
        bc = cplx and rng.random() < 0.6
        while True:
            cpsi = [[rng.randint(-1, 1) + (1j * rng.randint(-1, 1) if bc else 0) for _ in range(d)] for d in dims]
            amps = [[[rng.randint(-1, 1) + (1j * rng.randint(-1, 1) if cplx else 0) for _ in range(d)] for d in dims] for _ in range(nw)]
            fl = np.concatenate(cpsi)
            ov = [np.sum(fl.conj() * np.concatenate(a) * root ** 2) for a in amps]
            lim = 1.5 if unit else 20
            if all(0.5 < abs(o) ** 2 < lim for o in ov):
                break
        bpsi = fl * root
        bphi = np.array([np.concatenate(a) for a in amps]) * root[None, :]
    key = (nao, na, nb, ncomp)
    tr = qmcfix.make_trial(nao, na, nb, ncomp, psia=psia, psib=psib, boson_psi=bpsi, mol=_mol(key))
    h1 = np.array([h] * ncomp)
    tr.half_rotate_integrals(h1, ls)
    if boson:
        tr.mol.nmodes, tr.mol.nboson_states = len(dims), dims
    wk = gw.make_walkers(tr, {"nwalkers": nw})
    for i in range(nw):
        wk.phiwa[i] = pha[i]
        if ncomp > 1:
            wk.phiwb[i] = phb[i]
        if boson:
            wk.boson_phiw[i] = bphi[i]
    w = [rng.randint(1, 4) for _ in range(nw)]
    wk.weights = np.array(w, dtype=float)
    ev = {"kind": "mixed", "ncomp": ncomp, "boson": boson, "psia": cint(psia), "psib": cint(psib), "h": cint(h),
          "ls": [cint(x) for x in ls], "enuc": enuc, "outcome": "ok", "sums": unit}
    if boson:
        ev.update(om=[int(x) for x in om], geb=[cint(x) for x in geb], bpsi=[[[int(np.real(c)), int(np.imag(c))] for c in m] for m in cpsi])
    try:
        with vlib.quiet():
            ov = np.array(tr.ovlp_with_walkers_gf(wk), copy=True)
            gha = np.array(wk.Ghalfa, copy=True)
            ghb = np.array(wk.Ghalfb, copy=True) if ncomp > 1 else gha
            vb = np.array(tr.get_vbias(wk, ls), copy=True)
            ov2 = np.array(tr.ovlp_with_walkers(wk), copy=True)
            if boson:
                pr = PhaselessElecBoson(0.01, verbose=0, nbarefields=ls.shape[0])
                pr.system = types.SimpleNamespace(nmodes=len(dims), nboson_states=dims, boson_freq=om)
            else:
                pr = Phaseless(0.01, verbose=0)
            pr.build(h1, ls, tr, geb) if boson else pr.build(h1, ls, tr)
            res = pr.local_energy(h1, ls, wk, tr, enuc=float(enuc))
            bov = tr.boson_ovlp_with_walkers(wk) if boson else None
    except Exception as e:  # noqa
        ev.update(outcome="raise " + type(e).__name__ + " " + str(e)[:200], walkers=[], sums=False)
        return ev
    ws = []
    for i in range(nw):
        da = abs(np.linalg.det(psia.conj().T @ pha[i])) ** 2
        db = abs(np.linalg.det(psib.conj().T @ phb[i])) ** 2
        d2 = round(da * db)
        b2 = 1
        if boson:
            b2 = round(abs(np.sum(bpsi.conj() * bphi[i])) ** 2)
        mag = abs(complex(wk.eloc[i])) * 2 * d2 * b2
        if not mag < BIG and mag == mag:
            raise TooBig()
        x = {"phia": cint(pha[i]), "phib": cint(phb[i]), "ovlp": cproj(ov[i]), "ovlp2": cproj(ov2[i]), "w": w[i],
             "gha": cmat(gha[i], round(da)), "ghb": cmat(ghb[i], round(db)), "vbias": [cproj(v, d2) for v in vb[i]],
             "eloc": cproj(wk.eloc[i], 2 * d2 * b2)}
        if boson:
            x.update(bphi=[[[int(np.real(c)), int(np.imag(c))] for c in m] for m in amps[i]], bovlp=cproj(bov[i]))
        ws.append(x)
    ev["walkers"] = ws
    ev["etot"], ev["norm"], ev["e1"], ev["e2"] = (vlib.proj(res[0], 2), vlib.proj(res[1]), vlib.proj(res[2], 2), vlib.proj(res[3], 2))
    return ev


def parts(rng):
    """the stand-alone estimators, on determinants of overlap one"""
    from openms.qmc import estimators as es, trial as tl
    cplx = rng.random() < 0.5
    nao = rng.choice([2, 3, 4])
    na = rng.randint(1, min(3, nao))
    nb = rng.randint(1, na)
    nw = rng.choice([1, 2])
    psia, pha = spin_set(rng, nao, na, nw, True, cplx)
    psib, phb = spin_set(rng, nao, nb, nw, True, cplx)
    h, ls = sym(rng, nao), np.array([sym(rng, nao) for _ in range(rng.choice([1, 2]))])
    ev = {"kind": "parts", "outcome": "ok", "psia": cint(psia), "psib": cint(psib), "h": cint(h), "ls": [cint(x) for x in ls], "walkers": []}

    def run():
        out = []
        gh = {}
        for s, psi, ph in (("a", psia, pha), ("b", psib, phb)):
            w = np.array(ph)
            gh[s] = [tl.trial_walker_ovlp_gf_base(w.copy(), psi.astype(complex))]
            if hasattr(tl, "trial_walker_ovlp_gf_base_numba"):
                gh[s].append(tl.trial_walker_ovlp_gf_base_numba(w.copy(), psi.astype(complex)))
        (r1a, r1b), (rla, rlb) = tl.half_rotate_integrals(2, psia[None], psib[None], np.array([h, h]), ls)
        rla, rlb = np.ascontiguousarray(rla[0].astype(complex)), np.ascontiguousarray(rlb[0].astype(complex))
        ga, gb = gh["a"][0][1], gh["b"][0][1]
        ga, gb = np.ascontiguousarray(ga), np.ascontiguousarray(gb)
        ecs = [es.ecoul_rltensor_uhf(rla, ga, rlb, gb)]
        eca = [es.ecoul_rltensor_uhf(rla, ga)]
        exa = [es.exx_rltensor_Ghalf(rla, ga), es.exx_rltensor_Ghalf_kernel(rla, ga)]
        if hasattr(es, "ecoul_rltensor_Ghalf_numba"):
            ecs.append(es.ecoul_rltensor_Ghalf_numba(rla, ga, rlb, gb))
            eca.append(es.ecoul_rltensor_Ghalf_numba(rla, ga))
        if hasattr(es, "exx_rltensor_Ghalf_numba"):
            exa.append(es.exx_rltensor_Ghalf_numba(rla, ga))
        from openms.__mpi__ import MPI
        exa.append(es.exx_rltensor_Ghalf_chunked(rla, ga, MPI.COMM_WORLD, MPI, nw, [nw], [0]))
        e1 = es.e_rh1e_Ghalf(r1a[0], ga)
        G = np.array([es.GF(psia, p)[0] for p in pha])
        cs = [es.local_eng_elec_chol_new(h, ls, G)]
        th = np.einsum("pi,npq,zqj->znij", psia.conj(), ls, ga)
        vb = np.einsum("npq,zpq->zn", ls, G)
        cs.append(es.local_eng_elec_chol(th, h, vb, G))
        Gs = np.array([[es.GF(psia, a)[0], es.GF(psib, b)[0]] for a, b in zip(pha, phb)])
        eri = np.einsum("nps,nqr->psqr", ls, ls)
        mc = _afqmc()
        sp = [es.local_eng_elec(np.array([h, h]), eri, Gs), mc.local_energy_spin(h, eri, Gs) - mc.nuc_energy]
        for i in range(nw):
            so, _ = es.GF_so(np.hstack([psia, psib]), np.hstack([pha[i], phb[i]]), na, nb)
            out.append({"phia": cint(pha[i]), "phib": cint(phb[i]),
                        "ova": [cmat(g[0][i]) for g in gh["a"]], "ovb": [cmat(g[0][i]) for g in gh["b"]],
                        "gha": [cmat(g[1][i]) for g in gh["a"]], "ghb": [cmat(g[1][i]) for g in gh["b"]],
                        "ga": [cmat(so[0]), cmat(G[i])], "gb": [cmat(so[1])],
                        "e1a": cproj(e1[i]), "ecoul": [cproj(x[i], 2) for x in ecs], "ecoula": [cproj(x[i], 2) for x in eca],
                        "exxa": [cproj(x[i], 2) for x in exa], "closed": [cproj(x[i]) for x in cs],
                        "spin": [cproj(x[i], 2) for x in sp]})
        return out
    oc, out = vlib.outcome(run)
    if oc != "ok":
        ev["outcome"] = "raise " + str(out)[:150]
    else:
        ev["walkers"] = out
    return ev


_mc = []


def _afqmc():
    if not _mc:
        import qmcrun
        _mc.append(qmcrun.build(uhf=True))
    return _mc[0]


def coherent(rng):
    from openms.qmc import trial as tl
    nm = rng.choice([1, 2, 3])
    z = [rng.randint(-2, 2) for _ in range(nm)]
    dims = [rng.choice([1, 2, 3, 4]) for _ in range(nm)]
    oc, out = vlib.outcome(tl.initialize_boson_trial_with_z, np.array(z, dtype=float), dims)
    ev = {"kind": "coherent", "outcome": oc if oc == "ok" else "raise " + str(out)[:100], "z": z, "dims": dims, "rel": [], "norm": 0, "size": -1}
    if oc == "ok":
        ev["size"], k = int(np.size(out)), 0
        ev["norm"] = vlib.proj(np.sum(np.abs(out) ** 2))
        for d in dims:       # amplitudes over that of the mode's ground state, times sqrt(n!) : z^n
            ev["rel"].append([vlib.proj(np.real(out[k + n] / out[k]) * np.sqrt(factorial(n))) for n in range(d)] if k + d <= np.size(out) else [])
            k += d
    return ev


_mols = {}


def _mol(key):
    if key not in _mols:
        _mols[key] = qmcfix.hmol(*key[:3])
    return _mols[key]


def fx(x):
    v = float(np.real(x)) * 1e7
    return int(round(v)) if v == v and abs(v) < 1.9e9 else vlib.NOTINT


def forms(rng, i):
    nat, spin = rng.choice([(2, 0), (4, 0), (4, 0), (4, 2), (3, 1)])
    boson = rng.choice([0, 0, 1, 2])
    common = dict(nat=nat, spin=spin, num_walkers=4, property_calc_freq=2, dt=0.02, total_time=0.13, pop_control_freq=3,
                  renorm_freq=3, random_seed=rng.randrange(1, 10 ** 6))
    if spin:
        variants = [dict(uhf=True), dict(uhf=True, OAO=False)]
    else:
        variants = [dict(), dict(OAO=False), dict(uhf=True), dict(use_so=True, OAO=False)]
    variants = [dict(v, boson=boson) for v in variants]
    if boson == 0 and not spin:
        nf = rng.choice([1, 2])
        variants = [dict(v, propagator_options={"num_fake_fields": nf}) for v in variants]
        nao = nat
        variants.append(dict(boson=nf, gmat=np.zeros((nf, nao, nao))))
    series, oc = [], []
    for v in variants:
        try:
            with vlib.quiet():
                q = qmcrun.build(**dict(common, **v))
                t, e = q.kernel()
            series.append([fx(x) for x in e] + [fx(q.eshift)] + [fx(x) for x in q.walkers.weights])
            oc.append("ok")
        except Exception as ex:  # noqa
            oc.append("raise " + type(ex).__name__ + str(ex)[:100])
    return {"kind": "forms", "outcome": oc, "series": series, "nat": nat, "spin": spin, "boson": boson}


def body(chk):
    rng = random.Random(vlib.SEED + 6)
    chk.model("Mixed", tier("Mixed.cfg", "MixedDeep.cfg"), timeout=tier(600, 3000))
    events = []
    while len(events) < tier(400, 5000):
        try:
            events.append(event(rng))
        except TooBig:
            pass
    events += [parts(rng) for i in range(tier(60, 600))] + [coherent(rng) for i in range(tier(20, 100))]
    events += [forms(rng, i) for i in range(tier(12, 120))]
    chk.validate("MixedTrace", "MixedTrace.cfg", events, timeout=tier(600, 3000))
    chk.assumptions = ["operators are real symmetric, as Cholesky vectors and one-electron integrals are",
                       "trial orbitals, walkers and operators have small (Gaussian) integer entries"]

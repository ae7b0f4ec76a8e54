"""Drives the real population control and projects what it did onto the PopControl specification."""
import numpy as np
import qmcfix

_trials = {}


def trial_for(ncomp, boson):
    key = (ncomp, boson)
    if key not in _trials:
        na, nb = (2, 1) if ncomp == 2 else (2, 2)
        bp = np.array([1.0, 2.0, -1.0]) if boson else None
        _trials[key] = qmcfix.make_trial(4, na, nb, ncomp, boson_psi=bp)
    return _trials[key]


def fresh_walkers(n, ncomp, boson):
    """n walkers, every piece of per-walker data different for every walker."""
    from openms.qmc import generic_walkers as gw
    tr = trial_for(ncomp, boson)
    wk = gw.make_walkers(tr, {"nwalkers": n})
    for i in range(wk.nwalkers):
        wk.phiwa[i] = (i + 1) + 1j * np.arange(wk.phiwa[i].size).reshape(wk.phiwa[i].shape)
        if ncomp > 1:
            wk.phiwb[i] = -(i + 1) + 1j * np.arange(wk.phiwb[i].size).reshape(wk.phiwb[i].shape)
        if boson:
            wk.boson_phiw[i] = 100 * (i + 1) + np.arange(wk.boson_phiw[i].size)
        wk.ehybrid[i] = 1000 + i
        wk.eloc[i] = 2000 + i
    return tr, wk


def fields(wk, ncomp, boson):
    names = ["phiwa"]
    if ncomp > 1:
        names.append("phiwb")
    if boson:
        names.append("boson_phiw")
    return names + ["ehybrid", "eloc"]


def snapshot(wk, names):
    return {k: np.array(getattr(wk, k), copy=True) for k in names}


def source_of(before, after):
    """Which walker each slot is an exact copy of (0: none)."""
    out = []
    for t in range(len(after)):
        hit = [i for i in range(len(before)) if np.array_equal(np.asarray(after[t]), before[i])]
        out.append(hit[0] + 1 if len(hit) == 1 else 0)
    return out


def aliased(wk, names):
    """Does writing to one walker change another?"""
    for k in names:
        a = np.asarray(getattr(wk, k))
        if a.ndim == 1:
            continue
        for t in range(len(a)):
            rest = np.array(a, copy=True)
            old = np.array(a[t], copy=True)
            a[t] += 7.0
            bad = any(not np.array_equal(a[s], rest[s]) for s in range(len(a)) if s != t)
            a[t] = old
            if bad:
                return True
    return False

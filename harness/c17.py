"""C17 - mean-field calculations: one physical system, many descriptions and histories."""
import random
import numpy as np
import vlib
from vlib import tier, outcome, NOTINT

MOLS = {"hf": [["H", 0, 0, 0], ["F", 0, .2, 1.8]], "lih": [["Li", .1, 0, .2], ["H", 0, .3, 3.2]], "h2o": [["O", 0, 0, 0], ["H", .2, 1.43, 1.1], ["H", 0, -1.4, 1.2]],
        "h3": [["H", 0, 0, 0], ["H", .1, .2, 1.7], ["H", 1.4, .3, 1.0]]}


SETTINGS = {"shift": {"level_shift": .2}, "damp": {"damp": .4, "diis_start_cycle": 6}, "plain": {"diis": False}, "late": {"diis_start_cycle": 4},
            "small": {"diis_space": 3}, "direct": {"max_memory": 1}, "both": {"damp": .3, "diis_start_cycle": 3, "level_shift": .1}}


def i7(x, k=1e7):
    v = float(x) * k
    return int(round(v)) if np.isfinite(v) and abs(v) < 1.9e9 else NOTINT


def ints(a):
    return np.asarray(a).tolist()


def body(chk):
    chk.model("Mean", tier("Mean.cfg", "MeanDeep.cfg"), timeout=800)
    cases = chk.cases("Mean", "MeanGen.cfg", simulate=tier(150, 1500), depth=6, workers=1, timeout=600)
    from openms.mqed import qedhf, scqedhf, vtqedhf
    from pyscf import gto, scf
    from scipy import linalg
    rng = random.Random(vlib.SEED * 171 + 17)
    nr = np.random.RandomState(vlib.SEED * 29 + 17)
    KIND = {"Q": qedhf.RHF, "SC": scqedhf.RHF, "VT": vtqedhf.RHF}
    ev = []

    def geom(name, geo=0, fr=None, move=0):
        xyz = np.array([a[1:] for a in MOLS[name]], dtype=float)
        if geo:
            xyz[-1] *= 1.06
        if fr is not None:
            xyz = xyz @ (np.array(fr["m"], dtype=float) / fr["s"]).T
        xyz = xyz + move * np.array([.7, -1.1, .4])
        return gto.M(atom=[[a[0], tuple(x)] for a, x in zip(MOLS[name], xyz)], basis="sto3g", unit="Bohr", charge=1 if name == "h3" else 0, verbose=0)

    def build(meth, mol, modes, guess=None, **kw):
        mf = KIND[meth](mol, omega=np.array([m["w"] / 10 for m in modes]), vec=np.array([[x / 1000 for x in m["v"]] for m in modes], dtype=float), **kw)
        mf.verbose, mf.conv_tol, mf.max_cycle = 0, 1e-10, 400
        if guess:
            mf.init_guess = guess
        return mf

    def dip(mf):
        return np.einsum("xpq,pq->x", mf.qed.get_dipole_ao(), mf.make_rdm1())

    # ---- descriptions and histories
    sel = {}
    for c in cases:
        h = c[-1]
        sel.setdefault((h["meth"], h["live"]), []).append(c)
    base = {}

    def first(meth, name, start, geo, ms0, cb):
        key = (meth, name, start, geo, cb)
        if key not in base:
            mf = build(meth, geom(name, geo), ms0, complete_basis=cb)
            with vlib.quiet():
                mf.kernel()
            base[key] = (mf.e_tot, dip(mf))
        return base[key]

    per = {"Q": tier(16, 80), "SC": tier(3, 16), "VT": tier(3, 16)}
    start0 = {}
    for c in cases:
        if c[0]["op"] in ("again", "guess"):
            start0[c[0]["start"]] = c[0]["modes"]
    for (meth, live), cs in sorted(sel.items()):
        # behaviours richest in different actions first
        rng.shuffle(cs)
        cs.sort(key=lambda c: -len({x["op"] for x in c}))
        for c in cs[:per[meth]]:
            name = rng.choice(sorted(MOLS) if meth == "Q" else ["hf", "hf", "lih"])
            cd = {"CD_anyway": name == "hf" and rng.random() < .5, "CD_thresh": 1e-11} if meth != "Q" else {}
            cd["complete_basis"] = cb = meth == "SC" or rng.random() < .6     # the self-energy's two forms
            mf, mv = None, 0
            for x in c:
                if x["op"] == "move":
                    mv = x["arg"]
                mol = geom(name, x["geo"], x["fr"], mv)

                def run():
                    nonlocal mf
                    g = x["arg"] if x["op"] == "guess" and x["arg"] != "rotated" else None
                    dm0 = None
                    new = not live or mf is None
                    if new:
                        mf = build(meth, mol, x["modes"], g, **cd)
                    if x["op"] == "settings":
                        for k, v in SETTINGS[x["arg"]].items():
                            setattr(mf, k, v)
                    if x["arg"] == "rotated":       # orbitals of a guess, turned among each other
                        s = mf.get_ovlp(mol)
                        f = mf.get_bare_hcore(mol)
                        _, C = scf.hf.eig(f + scf.hf.get_veff(mol, mf.get_init_guess(mol, "minao")), s)
                        A = nr.uniform(-.25, .25, C.shape)
                        C = (C @ linalg.expm(A - A.T))[:, :mol.nelectron // 2]
                        dm0 = 2 * C @ C.T
                    if new or dm0 is not None:
                        mf.kernel(dm0=dm0)
                    elif x["op"] in ("scan", "move"):
                        mf = mf if hasattr(mf, "undo_scanner") else mf.as_scanner()
                        mf(mol)
                    elif g:
                        mf.init_guess = g
                        mf.kernel(dm0=mf.get_init_guess(mol, g))
                    else:
                        mf.kernel(*([mf.make_rdm1()] if rng.random() < .5 else []))
                    return mf
                ms0 = start0[x["start"]]
                oc, _ = outcome(run)
                e0, d0 = first(meth, name, x["start"], x["geo"], ms0, cb)
                e = {"op": "system", "oc": oc if oc == "ok" else "raise", "act": x["op"], "meth": meth, "live": live, "mol": name, "modes": x["modes"], "ms0": ms0, "fr": x["fr"],
                     "tol": 8 if meth == "Q" else 40, "hasz": meth != "SC", "ztol": 5 if meth == "Q" else 30}
                if oc == "ok":
                    e.update(conv=bool(mf.converged), e=i7(mf.e_tot - e0), d=[i7(v, 1e5) for v in d0], z=[i7(v, 1e5) for v in np.ravel(mf.qed.z_alpha)])
                else:
                    e["err"] = str(_)
                    mf = None
                ev.append(e)

    # ---- relations between methods
    for i in range(tier(4, 24)):
        name = rng.choice(tier(["hf"], ["hf", "h2o", "lih"]))
        mol = geom(name)
        modes = [{"w": rng.choice([4, 5, 8]), "v": [rng.randint(-60, 60) for _ in range(3)]}]
        cd = {"CD_anyway": i % 2 == 1, "CD_thresh": 1e-11}
        nb = [1, 1, 3, 1][i % 4]

        def en(meth, **kw):
            mf = build(meth, mol, modes, **kw)
            mf.kernel()
            assert mf.converged, "not converged"
            return mf

        def run():
            one = np.array([1.0])
            sc, vt = en("SC", nboson_states=nb, **cd), en("VT", nboson_states=nb)
            f1 = en("VT", nboson_states=nb, couplings_var=one, optimize_varf=False, **cd)
            f0 = en("VT", couplings_var=np.array([1e-6]), optimize_varf=False)
            q = en("Q")
            mid = en("VT", nboson_states=nb, couplings_var=np.array([.5]), optimize_varf=False)
            r = q.e_tot
            m0 = scf.RHF(mol)
            m0.verbose, m0.conv_tol = 0, 1e-11
            m0.kernel()
            modes[0]["v"] = [0, 0, 0]
            bare = [en(k).e_tot for k in ("Q",)]
            return ([i7(x.e_tot - r) for x in (sc, f1)], [i7(x.e_tot - r) for x in (q, f0)], [[i7(vt.e_tot - r), i7(x.e_tot - r)] for x in (sc, q, mid)], [i7(x - m0.e_tot) for x in [m0.e_tot] + bare])
        oc, out = outcome(run)
        okk = oc if oc == "ok" else "raise " + str(out)
        ev.append({"op": "same", "what": "the fully displaced transformation is the strong-coupling method", "oc": okk, "v": out[0] if oc == "ok" else [], "tol": 40, "nb": nb})
        ev.append({"op": "same", "what": "the vanishing transformation is QED-HF", "oc": okk, "v": out[1] if oc == "ok" else [], "tol": 60})
        for v in (out[2] if oc == "ok" else [[]]):
            ev.append({"op": "below", "what": "optimising the transformation gives the lowest energy", "oc": okk, "v": v, "tol": 30, "nb": nb})
        ev.append({"op": "same", "what": "an uncoupled cavity leaves Hartree-Fock unchanged", "oc": okk, "v": out[3] if oc == "ok" else [], "tol": 8})

    # ---- what a calculation reports, finished or not
    for i in range(tier(10, 60)):
        meth = ["Q", "Q", "SC", "VT"][i % 4]
        name = rng.choice(["hf", "h2o", "lih"])
        mol = geom(name)
        nm = rng.choice([1, 2]) if meth == "Q" else 1
        modes = [{"w": rng.choice([4, 5, 8]), "v": [rng.randint(-60, 60) for _ in range(3)]} for _ in range(nm)]
        mx = [400, 2, 400, 400, 1][i % 5]
        kw = {"z_alpha": np.array([.1] * nm), "nboson_states": 3} if meth == "Q" and rng.random() < .4 else {}

        def run():
            mf = build(meth, mol, modes, **kw)
            mf.max_cycle = mx
            mf.kernel()
            D, s = mf.make_rdm1(), mf.get_ovlp()
            occ, C, eps = np.asarray(mf.mo_occ), mf.mo_coeff, np.asarray(mf.mo_energy)
            r = {"converged": bool(mf.converged), "cycles": int(mf.cycles), "max": mx, "orth": i7(np.abs(C.T @ s @ C - np.eye(len(s))).max(), 1e6), "nocc": int(round(occ.sum())), "nelec": mol.nelectron,
                 "aufbau": bool(set(occ.tolist()) <= {0., 2.} and eps[occ > 0].max() <= eps[occ == 0].min() + 1e-9), "de": 0, "next": 0, "comm": 0}
            if mf.converged:
                e = mf.e_tot
                h = mf.get_hcore(mol, D)
                v = mf.get_veff(mol, D)
                r["de"] = i7(mf.energy_tot(D, h, v) - e)
                f = h + v
                f = (f + f.T) / 2
                r["comm"] = i7(np.abs(f @ D @ s - s @ D @ f).max(), 1e6)
                mf.kernel(dm0=D)
                r["next"] = i7(mf.e_tot - e)
            return r
        oc, out = outcome(run)
        e = {"op": "state", "oc": oc if oc == "ok" else "raise " + str(out), "meth": meth, "tol": 8 if meth == "Q" else 40}
        if oc == "ok":
            e.update(out)
        ev.append(e)
    chk.validate("MeanTrace", "MeanTrace.cfg", ev, timeout=800)
    chk.assumptions += ["couplings up to 0.1 a.u., where the self-consistent solution is unique", "integrals, DIIS base class and eigensolver are PySCF's"]

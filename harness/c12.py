"""C12 - integrals handed to correlated methods."""
import itertools, random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, proj, NOTINT
from c15 import eri8, sym
from c17 import i7


def body(chk):
    chk.model("Ints", tier("Ints.cfg", "IntsDeep.cfg"), timeout=800)
    from openms.mqed import qedhf
    from openms.lib import boson, ov_blocks
    from pyscf import gto, ao2mo, scf
    rng = random.Random(vlib.SEED * 121 + 12)
    nr = np.random.RandomState(vlib.SEED * 31 + 12)
    ev = []
    with vlib.quiet():
        h2 = gto.M(atom="H 0 0 0; H 0 0 1.4", basis="sto3g", unit="Bohr", verbose=0)
        h3 = [gto.M(atom="H 0 0 0; H 0 0 1.5; H 0 1.2 0.4", basis="sto3g", unit="Bohr", charge=q, verbose=0) for q in (1, -1)]
        lih = gto.M(atom="Li 0.1 0 0.2; H 0 0.3 3.0", basis="sto3g", unit="Bohr", verbose=0)
        hf = gto.M(atom="H 0 0 0; F 0 0.2 1.8", basis="sto3g", unit="Bohr", verbose=0)
    SS = {2: [np.eye(2, dtype=int), np.array([[2, 1], [1, 1]])], 3: [np.eye(3, dtype=int), np.array([[2, 1, 0], [1, 1, 0], [0, 0, 1]])]}

    # ---- integer systems
    for i in range(tier(30, 240)):
        mol0 = rng.choice([h2, h2] + h3)
        mol = mol0.copy()
        n, ne = mol.nao_nr(), mol.nelectron
        nm = rng.choice([1, 2, 3])
        s = rng.choice(SS[n])
        si = np.rint(np.linalg.inv(s)).astype(int)
        h, eri = sym(nr, n, -4, 4), eri8(nr, n, -2, 3)
        q = np.array([sym(nr, n, -4, 4) for _ in range(nm)])
        dip = np.array([sym(nr, n, -2, 2) for _ in range(3)])
        axes = rng.sample(range(3), nm)
        gf = [rng.choice([1, 2, -1]) for _ in range(nm)]
        g = np.array([gf[m] * dip[axes[m]] for m in range(nm)])
        c = nr.randint(-1, 2, size=(n, n)) + np.eye(n, dtype=int)
        cs = rng.random() < .5
        z = [rng.randint(-3, 3) for _ in range(nm)]
        rt = [rng.choice([1, 2, 4]) for _ in range(nm)]
        cb = rng.random() < .5

        def run():
            om = np.array([r * r / 2.0 for r in rt])
            kw = {} if cs else {"z_alpha": np.array(z, dtype=float)}
            real = mol.intor
            mol.intor = lambda name, *a, **k: eri.astype(float) if name.startswith("int2e") else real(name, *a, **k)
            mf = qedhf.RHF(mol, omega=om, vec=np.eye(3)[axes], gfac=np.array(gf, dtype=float), complete_basis=cb, **kw)
            mf.verbose = 0
            mf.get_bare_hcore = lambda mol=None: h.astype(float)
            mf.get_ovlp = lambda mol=None: s.astype(float)
            mf._eri = ao2mo.restore(8, eri.astype(float), n)
            mf.qed.dipole_ao = dip.astype(float)
            mf.qed.gmat, mf.qed.q_lambda_ao = g.astype(float), q.astype(float)
            mf.mo_coeff, mf.mo_occ = c.astype(float), np.array([2.] * (ne // 2) + [0.] * (n - ne // 2))
            b = mf.qed
            if cs:
                b.update_cs(2. * (c[:, :ne // 2] @ c[:, :ne // 2].T))
            b.kernel()
            f, full, blk, (g1, g2), (m1, m2) = b.g_fock(), b.get_I(full=True), b.get_I(), b.gint(), b.mfG()
            assert all(np.array_equal(getattr(g1, k), getattr(g2, k)) for k in ("oo", "ov", "vo", "vv")) and np.array_equal(m1, m2)
            return {"f": {k: proj_list(getattr(f, k), 200 * ne, 1e-6) for k in ("oo", "ov", "vo", "vv")}, "full": proj_list(full),
                    "i": {k: proj_list(getattr(blk, k)) for k in ("vvvv", "vvvo", "vovv", "vvoo", "oovv", "vovo", "vooo", "ooov", "oooo")},
                    "g": {k: proj_list(getattr(g1, k), 2) for k in ("oo", "ov", "vo", "vv")}, "mfg": proj_list(m1, 2)}
        oc, out = outcome(run)
        e = {"op": "system", "oc": oc if oc == "ok" else "raise " + str(out), "c": c.tolist(), "no": ne // 2,
             "y": {"h": h.tolist(), "eri": eri.tolist(), "s": s.tolist(), "si": si.tolist(), "g": g.tolist(), "q": q.tolist(), "n": ne, "dse": True, "cb": cb, "cs": cs},
             "b": {"z": z, "rt": rt, "bb": [0] * nm, "eb": 0}}
        if oc == "ok":
            e.update(out)
        ev.append(e)

    # ---- splitting
    for i in range(tier(12, 60)):
        no = [rng.randint(1, 3) for _ in range(4)]
        nv = [rng.randint(1, 3) for _ in range(4)]
        t = np.fromfunction(lambda a, b, c, d: 1000 * a + 100 * b + 10 * c + d, [x + y for x, y in zip(no, nv)])
        fn = rng.choice([ov_blocks.make_two_e_blocks, ov_blocks.make_two_e_blocks_full])

        def run():
            r = fn(t, no[0], nv[0], no[1], nv[1], no[2], nv[2], no[3], nv[3])
            names = [k for k in ("".join(x) for x in itertools.product("ov", repeat=4)) if getattr(r, k, None) is not None]
            return {"blk": {k: proj_list(getattr(r, k)) for k in names}, "dim": {k: list(getattr(r, k).shape) for k in names}, "off": {k: [0 if ch == "o" else no[x] for x, ch in enumerate(k)] for k in names},
                    "want": {k: [no[x] if ch == "o" else nv[x] for x, ch in enumerate(k)] for k in names}, "count": len(names)}
        oc, out = outcome(run)
        e = {"op": "blocks", "oc": oc if oc == "ok" and out["count"] == (16 if fn is ov_blocks.make_two_e_blocks_full else 9) else "raise"}
        if oc == "ok":
            e.update(out)
        ev.append(e)

    # ---- molecules: the reference rebuilt from the integrals is the mean field
    for i in range(tier(6, 40)):
        mol = rng.choice([lih, hf, h3[1]])
        nm = rng.choice([1, 2, 3])
        om = np.array([rng.choice([.3, .5, 1.1]) for _ in range(nm)])
        vec = np.array([[rng.uniform(-.1, .1) for _ in range(3)] for _ in range(nm)])

        def run():
            mf = qedhf.RHF(mol, omega=om, vec=vec)
            mf.verbose, mf.conv_tol = 0, 1e-11
            mf.kernel()
            b = mf.qed if i % 2 else boson.Photon(mol, mf=mf, omega=om, vec=vec)
            if b is not mf.qed:
                b.kernel()
                b.get_q_dot_lambda()
                b.update_cs(mf.make_rdm1())
            b.kernel()
            f, I, G = b.g_fock(), b.get_I(), b.mfG()[0]
            e = np.trace(f.oo) - .5 * np.einsum("ijij", I.oooo) + mf.energy_nuc()
            k = mol.nelectron // 2
            return ([0, i7(e - mf.e_tot)], [0, i7(np.abs(f.ov).max(), 1e5)],
                    [0] + [i7(x, 1e6) for x in np.concatenate([np.diag(f.oo) - np.r_[mf.mo_energy[:k], mf.mo_energy[:k]], np.diag(f.vv) - np.r_[mf.mo_energy[k:], mf.mo_energy[k:]]])],
                    [0] + [i7(x, 1e6) for x in G - np.sqrt(om / 2) * mf.qed.z_alpha])
        oc, out = outcome(run)
        for j, (what, tol) in enumerate((("reference energy from Fock matrix and integrals", 20), ("converged Fock matrix has no occupied-virtual block", 3), ("Fock diagonal holds the orbital energies", 20), ("mean-field couplings are the displacements", 20))):
            ev.append({"op": "same", "what": what, "oc": oc if oc == "ok" else "raise " + str(out), "v": out[j] if oc == "ok" else [], "tol": tol})

    # ---- integrals for full configuration interaction: same functional as the mean field
    for i in range(tier(6, 40)):
        mol = rng.choice([lih, hf] + h3)
        nm = rng.choice([1, 2])
        om = np.array([rng.choice([.3, .5, 1.1]) for _ in range(nm)])
        vec = np.array([[rng.uniform(-.2, .2) for _ in range(3)] for _ in range(nm)])
        ch = None if i % 3 else 1e-10

        def run():
            enuc, s, h, eri, hep, dm = boson.get_integrals4fci(mol.copy(), om, vec, chol_thresh=ch)
            n = len(h)
            eri = ao2mo.restore(1, np.asarray(eri), n)
            w, v = np.linalg.eigh(mol.intor("int1e_ovlp"))
            back = v @ np.diag(w ** -.5) @ v.T
            mf = qedhf.RHF(mol, omega=om, vec=vec, z_alpha=np.zeros(nm), complete_basis=False)
            mf.verbose = 0
            mf.qed.boson_coeff[:, 0] = 0
            mf.qed.boson_coeff[list(range(nm)), 0] = 1
            res = []
            for k in range(3):
                c = np.linalg.qr(nr.normal(size=(n, n)))[0][:, :mol.nelectron // 2]
                d = 2 * c @ c.T
                e = enuc + np.sum(h * d) + .5 * np.einsum("pqrs,pq,rs", eri, d, d) - .25 * np.einsum("pqrs,ps,rq", eri, d, d)
                dao = back @ d @ back
                res.append((i7(e - mf.energy_tot(dao)), [i7(x, 1e6) for x in np.einsum("Xpq,pq->X", hep, d) - np.sqrt(om / 2) * np.einsum("Xpq,pq->X", mf.qed.gmat, dao)]))
            return [0] + [r[0] for r in res], [0] + sum([r[1] for r in res], []), [0, i7(np.abs(s - np.eye(n)).max(), 1e6), i7(np.trace(dm) - np.sum(scf.hf.get_init_guess(mol) * mol.intor("int1e_ovlp")), 1e4)]
        oc, out = outcome(run)
        for j, (what, tol) in enumerate((("energies from the full-CI integrals are the mean field's", 20 if ch is None else 200), ("full-CI couplings are the bilinear couplings", 3), ("full-CI orbitals are orthonormal and hold the initial density", 3))):
            ev.append({"op": "same", "what": what, "oc": oc if oc == "ok" else "raise " + str(out), "v": out[j] if oc == "ok" else [], "tol": tol})
    chk.validate("IntTrace", "IntTrace.cfg", ev, timeout=800)
    chk.assumptions += ["atomic-orbital integrals are PySCF's", "closed-shell references, unshifted bosons"]

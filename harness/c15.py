"""C15 - the QED-HF energy functional and its Fock matrix."""
import itertools, random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, proj, NOTINT


def eri8(nr, n, lo, hi):
    g = np.zeros((n,) * 4, dtype=int)
    for p, q, r, s in itertools.product(range(n), repeat=4):
        v = nr.randint(lo, hi + 1)
        for a in ((p, q, r, s), (q, p, r, s), (p, q, s, r), (q, p, s, r), (r, s, p, q), (s, r, p, q), (r, s, q, p), (s, r, q, p)):
            g[a] = v
    return g


def sym(nr, n, lo, hi):
    a = nr.randint(lo, hi + 1, size=(n, n))
    return np.tril(a) + np.tril(a, -1).T


STATES = [((1., 0.), 0), ((.6, .8), 24), ((.8, -.6), -24), ((0., 1.), 0), ((5 ** -.5, 2 * 5 ** -.5), 20)]


def rel(e, ref, k=1e7):
    v = (e - ref) * k
    return int(round(v)) if np.isfinite(v) and abs(v) < 1.9e9 else NOTINT


def body(chk):
    for cfg in (["Energy.cfg", "EnergyCs.cfg"] if vlib.TIER == "quick" else ["EnergyDeep.cfg", "EnergyCs.cfg"]):
        chk.model("Energy", cfg, timeout=800)
    from openms.mqed import qedhf
    from pyscf import gto, ao2mo
    rng = random.Random(vlib.SEED * 151 + 15)
    nr = np.random.RandomState(vlib.SEED * 19 + 15)
    ev = []
    with vlib.quiet():
        small = [gto.M(atom="H 0 0 0; H 0 0 1.4", basis="sto3g", unit="Bohr", verbose=0), gto.M(atom="He 0 0 0; He 0 0 2.4", basis="sto3g", unit="Bohr", verbose=0),
                 gto.M(atom="H 0 0 0; H 0 0 1.5; H 0 1.2 0.4", basis="sto3g", unit="Bohr", charge=1, verbose=0),
                 gto.M(atom="H 0 0 0; H 0 0 1.5; H 0 1.2 0.4", basis="sto3g", unit="Bohr", charge=-1, verbose=0)]
        lih = gto.M(atom="Li 0.1 0 0.2; H 0 0.3 3.0", basis="sto3g", unit="Bohr", verbose=0)
        hf = gto.M(atom="H 0 0 0; F 0 0.2 1.8", basis="sto3g", unit="Bohr", verbose=0)
        water = gto.M(atom="O 0 0 0; H 0 1.43 1.1; H 0 -1.43 1.1", basis="sto3g", unit="Bohr", verbose=0)
    SS = {2: [np.eye(2, dtype=int), np.array([[10, 3], [3, 1]]), np.array([[2, 1], [1, 1]])], 3: [np.eye(3, dtype=int), np.array([[2, 1, 0], [1, 1, 0], [0, 0, 1]]), np.array([[2, 1, 1], [1, 1, 1], [1, 1, 2]])]}

    # ---- the functional, in integers
    for i in range(tier(60, 500)):
        mol = rng.choice(small)
        n, ne = mol.nao_nr(), mol.nelectron
        nm = rng.choice([1, 1, 2, 3])
        s = rng.choice(SS[n])
        si = np.rint(np.linalg.inv(s)).astype(int)
        h, eri = sym(nr, n, -4, 4), eri8(nr, n, -2, 3)
        g = np.array([sym(nr, n, -2, 2) for _ in range(nm)])
        q = np.array([sym(nr, n, -4, 4) for _ in range(nm)])
        d = sym(nr, n, -2, 2)
        k = [a for a in range(n) if s[a, a] == 1][0]
        d[k, k] += ne - int((d * s).sum())
        cs, dse, cb = rng.random() < .5, rng.random() < .7, rng.random() < .5
        z = [rng.randint(-3, 3) for _ in range(nm)]
        rt = [rng.choice([1, 2, 4]) for _ in range(nm)]
        st = [rng.choice(STATES) if not cs else STATES[0] for _ in range(nm)]
        eb = rng.randint(0, 3)
        ns = [rng.choice([2, 3, 4]) for _ in range(nm)]

        def run():
            om = np.array([r * r / 2.0 for r in rt])     # sqrt(omega/2) = rt/2
            kw = {} if cs else {"z_alpha": np.array(z, dtype=float)}
            mf = qedhf.RHF(mol, omega=om, vec=np.array([[0, 0, 1.]] * nm), nboson_states=list(ns), add_dse=dse, complete_basis=cb, **kw)
            mf.verbose = 0
            mf.get_bare_hcore = lambda mol=None: h.astype(float)
            mf.get_ovlp = lambda mol=None: s.astype(float)
            mf._eri = ao2mo.restore(8, eri.astype(float), n)
            mf.qed.gmat, mf.qed.q_lambda_ao = g.astype(float), q.astype(float)
            for m in range(nm):
                o = sum(ns[:m])
                mf.qed.boson_coeff[o:o + ns[m], 0] = 0
                mf.qed.boson_coeff[o:o + 2, 0] = st[m][0]
            mf.qed.e_boson = float(eb)
            D = d.astype(float)
            e = mf.energy_tot(D) - mf.energy_nuc()
            h1 = mf.get_hcore(mol, D)
            vhf = mf.get_veff(mol, D)
            e2 = mf.energy_elec(D, h1, vhf)
            f = mf.get_fock(h1, s.astype(float), vhf, D)
            vj, vk = mf.get_jk(mol, D)
            return {"e200": proj(e, 200, 1e-6), "parts": proj(e2[0], 200, 1e-6), "f": proj_list(f, 200 * ne, 1e-6), "vj": proj_list(vj), "vk": proj_list(vk), "z": proj_list(mf.qed.z_alpha)}
        oc, out = outcome(run)
        e = {"op": "functional", "oc": oc if oc == "ok" else "raise " + str(out), "d": d.tolist(),
             "y": {"h": h.tolist(), "eri": eri.tolist(), "s": s.tolist(), "si": si.tolist(), "g": g.tolist(), "q": q.tolist(), "n": ne, "dse": dse, "cb": cb, "cs": cs},
             "b": {"z": z, "rt": rt, "bb": [x[1] for x in st], "eb": eb}}
        if oc == "ok":
            e.update(out)
        ev.append(e)

    def density(mol, k):
        """idempotent density matrices of random orbitals"""
        s = mol.intor("int1e_ovlp")
        w, v = np.linalg.eigh(s)
        x = v / np.sqrt(w)
        u = np.linalg.qr(nr.normal(size=s.shape))[0]
        c = (x @ u)[:, :mol.nelectron // 2]
        return 2 * c @ c.T

    def cavity(nm, g=.15):
        return dict(omega=np.array([rng.choice([.3, .5, 1.1]) for _ in range(nm)]), vec=np.array([[rng.uniform(-g, g) for _ in range(3)] for _ in range(nm)]))

    # ---- on molecules: energy differences from Fock matrices, direct and in-core integrals
    for i in range(tier(10, 60)):
        mol = rng.choice([lih, hf, water, small[3]])
        nm = rng.choice([1, 2, 3])
        cav = cavity(nm)
        kw = {} if rng.random() < .5 else {"z_alpha": np.array([rng.uniform(-.5, .5) for _ in range(nm)])}
        mem = rng.choice([4000, 0])

        def run():
            mf = qedhf.RHF(mol, nboson_states=rng.choice([1, 3]), complete_basis=rng.random() < .5, **cav, **kw)
            mf.verbose, mf.max_memory = 0, mem
            ds = [density(mol, j) for j in range(4)]
            if kw:                      # any boson state; in the coherent representation the vacuum
                mf.qed.get_gmatao()
                mf.qed.update_boson_coeff(ds[0])
            else:
                mf.qed.boson_coeff[:, 0] = 0
                mf.qed.boson_coeff[np.cumsum([0] + list(mf.qed.nboson_states))[:-1], 0] = 1
            es = [mf.energy_tot(x) for x in ds]
            fs = [mf.get_fock(dm=x) for x in ds]
            de = [rel(es[j + 1], es[j], 1e6) for j in range(3)]
            tr = [rel(np.sum((fs[j] + fs[j + 1]) / 2 * (ds[j + 1] - ds[j])), 0, 1e6) for j in range(3)]
            return de, tr
        oc, out = outcome(run)
        ev.append({"op": "quadratic", "oc": oc if oc == "ok" else "raise " + str(out), "de": out[0] if oc == "ok" else [], "tr": out[1] if oc == "ok" else [], "mem": mem})

    # ---- on molecules: representations agree
    def solve(mol, cav, mem=4000, n=1, **kw):
        mf = qedhf.RHF(mol, nboson_states=n, **cav, **kw)
        mf.verbose, mf.max_memory, mf.conv_tol, mf.max_cycle = 0, mem, 1e-11, 200
        mf.kernel()
        assert mf.converged
        return mf

    for i in range(tier(6, 40)):
        mol = rng.choice([lih, hf, water])
        nm = rng.choice([1, 2])
        cav = cavity(nm, .08)

        def run():
            mf = solve(mol, cav)
            e0 = mf.e_tot
            es = [e0, solve(mol, cav, mem=0).e_tot, solve(mol, cav, z_alpha=mf.qed.z_alpha.copy()).e_tot]
            top = 8
            zs = [np.zeros(nm), mf.qed.z_alpha + np.array([rng.uniform(-.2, .2) for _ in range(nm)])]
            fock = [solve(mol, cav, n=top, z_alpha=z).e_tot for z in zs]
            mono = [e0] + [solve(mol, cav, n=k, z_alpha=zs[1]).e_tot for k in (4, 2, 1)]
            return [rel(x, e0) for x in es], [rel(x, e0) for x in [e0] + fock], [rel(x, e0) for x in mono]
        oc, out = outcome(run)
        for j, (op, what, tol) in enumerate((("same", "direct integrals and the optimal displacement reproduce the coherent-state energy", 30),
                                             ("same", "a complete Fock space reproduces the coherent-state energy", 200), ("below", "the energy decreases with the boson space towards the coherent state", 20))):
            ev.append({"op": op, "what": what, "oc": oc if oc == "ok" else "raise " + str(out), "v": out[j] if oc == "ok" else [], "tol": tol})

    # ---- densities in the original representation
    for i in range(tier(4, 20)):
        mol = rng.choice([lih, hf, water])
        cav = cavity(1, .25)

        def run():
            mf = solve(mol, cav)
            nf = 8
            rt, re, rb = mf.make_rdm1_org(mf.mo_coeff, mf.mo_occ, nfock=nf)
            k = 4
            return {"rb": proj_list(np.rint(rb * 1e4)), "re": proj_list(np.rint(re[:k, :k] * 1e4)), "rho": proj_list(np.rint(mf.make_rdm1()[:k, :k] * 1e4))}
        oc, out = outcome(run)
        e = {"op": "marginal", "coherent": True, "oc": oc if oc == "ok" else "raise " + str(out)}
        if oc == "ok":
            e.update(out)
        ev.append(e)
    chk.validate("EnergyTrace", "EnergyTrace.cfg", ev, timeout=800)
    chk.assumptions += ["atomic-orbital integrals and the eigensolver are PySCF's", "closed-shell restricted references"]

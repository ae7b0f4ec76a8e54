"""C16 - SC/VT-QED-HF: dressed functional, Fock matrix, gradients, parameters."""
import random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, proj, NOTINT
from c15 import eri8, sym
from c09 import fx

K = 1000
CS = {1: [[1.]], 2: [[1., 0.], [.6, .8], [.8, -.6]], 3: [[1., 0., 0.], [.96, 0., .28], [.8, 0., -.6], [.6, .8, 0.]]}


def r6(x):
    a = np.ravel(np.asarray(x, dtype=float)) * 1e6
    return [int(round(v)) if np.isfinite(v) and abs(v) < 1.9e9 else NOTINT for v in a]


def body(chk):
    chk.model("Var", tier("Var.cfg", "VarDeep.cfg"), timeout=800)
    chk.model("Dress", tier("Dress.cfg", "DressDeep.cfg"), timeout=800)
    from openms.mqed import scqedhf, vtqedhf
    from pyscf import gto, ao2mo, scf
    rng = random.Random(vlib.SEED * 161 + 16)
    nr = np.random.RandomState(vlib.SEED * 23 + 16)
    ev = []
    with vlib.quiet():
        two = [gto.M(atom="H 0 0 0; H 0 0 1.4", basis="sto3g", unit="Bohr", verbose=0), gto.M(atom="He 0 0 0; He 0 0 2.4", basis="sto3g", unit="Bohr", verbose=0)]
        lih = gto.M(atom="Li 0.1 0 0.2; H 0 0.3 3.0", basis="sto3g", unit="Bohr", verbose=0)
        hf = gto.M(atom="H 0 0 0; F 0 0.2 1.8", basis="sto3g", unit="Bohr", verbose=0)
        h4 = gto.M(atom="H 0 0 0; H 0.2 0 1.5; H 1.1 0.4 3.1; H 0.9 1.3 4.2", basis="sto3g", unit="Bohr", verbose=0)
    KIND = {"SC": scqedhf.RHF, "VT": vtqedhf.RHF}

    def make(kind, mol, cd=False, **kw):
        mf = KIND[kind](mol, CD_anyway=cd, CD_thresh=1e-11, **kw)
        mf.verbose = 0
        return mf

    # ---- parameters: exact in thousandths
    def ints(n):
        return [rng.randint(-900, 900) for _ in range(n)]
    for i in range(tier(30, 200)):
        kind = rng.choice(["VT", "VT", "VT", "SC"])
        mol = rng.choice(two + [h4])
        o = {"f": rng.random() < .5, "r": rng.random() < .5} if kind == "VT" else {"f": False, "r": False}
        n = mol.nao_nr()
        s = {"eta": ints(n), "f": [rng.randint(0, 1000)] if kind == "VT" else [1000], "r": ints(1) if kind == "VT" else [0]}
        gr = {"eta": ints(n), "f": ints(1), "r": ints(1)}
        ln = n + o["f"] + o["r"]
        v = [rng.randint(-900, 900) for _ in range(ln)]
        fock = sym(nr, n, -9, 9)
        k = rng.choice([1, 2])

        def fresh():
            mf = make(kind, mol, omega=np.array([.5]), vec=np.array([[0, .03, .1]]))
            D = mf.get_init_guess(mol, "1e")
            mf.init_var_params(D)
            q = mf.qed
            mf.eta = np.array([s["eta"]]) / K
            mf.eta_grad = np.array([gr["eta"]]) / K
            if kind == "VT":
                q.optimize_varf, q.optimize_vsq = o["f"], o["r"]
                q.couplings_var, q.squeezed_var = np.array(s["f"]) / K, np.array(s["r"]) / K
                q.update_couplings()
                mf.vlf_grad, mf.vsq_grad = np.array(gr["f"]) / K, np.array(gr["r"]) / K
            mf.precond = float(k)
            return mf

        def after(mf):
            return {"after": {"eta": proj_list(np.ravel(mf.eta), K), "f": proj_list(mf.qed.couplings_var, K), "r": proj_list(mf.qed.squeezed_var, K)},
                    "res": proj_list(mf.qed.couplings_res, K)}

        def pack():
            a, g = fresh().pre_update_var_params()
            return {"packed": proj_list(np.ravel(a), K), "gpacked": proj_list(np.ravel(g), K)}

        def setp():
            mf = fresh()
            vec = np.hstack([fock.ravel(), np.array(v) / K]).astype(float)
            f = mf.set_params(vec, fock_shape=fock.shape)
            return dict(after(mf), fock=proj_list(f))

        def setv():
            mf = fresh()
            cut = [np.array(v[:n]).reshape(1, n) / K] + [np.array([x]) / K for x in v[n:]]
            mf.set_var_params(cut if kind == "VT" else [x.ravel() for x in cut])
            return dict(after(mf), fock=fock.tolist())

        def step():
            mf = fresh()
            mf.update_var_params()
            return after(mf)
        for op, fn, what in (("pack", pack, "the parameters can be packed"), ("set", setp, "a packed vector can be read back"), ("set", setv, "initial parameters can be given"), ("step", step, "a step can be taken")):
            oc, out = outcome(fn)
            e = {"op": op, "what": what, "oc": oc if oc == "ok" else "raise", "s": s, "o": o, "gr": gr, "v": v, "fin": fock.tolist(), "k": k, "kind": kind}
            if oc == "ok":
                e.update(out)
            ev.append(e)

    def energy(mf, D, eta, f, r, c, eb, grad=False):
        q, mol = mf.qed, mf.mol
        q.couplings_var = np.array([f])
        q.update_couplings()
        q.squeezed_var = np.array([r])
        mf.eta = np.array(eta, dtype=float).reshape(1, -1)
        q.boson_coeff = np.zeros((len(c), len(c)))
        q.boson_coeff[:, 0] = c
        q.e_boson = eb
        if q.use_cs:
            q.update_cs(D)
        mf.get_h1e_DO(mol, dm=D)
        h = mf.get_hcore(mol, D)
        v = mf.get_veff(mol, D)
        e = mf.energy_tot(D, h, v)
        if not grad:
            return e, h + v
        mf.grad_var_params(mf.dm_do, mf.g_dipole, dm=D)
        return e, mf

    # ---- the functional for orbitals which diagonalise the coupling
    for i in range(tier(16, 120)):
        kind = rng.choice(["SC", "VT", "VT"])
        mol = rng.choice(two)
        ne = mol.nelectron
        nb = rng.choice([1, 2, 3])
        c = rng.choice(CS[nb])
        h, eri = sym(nr, 2, -15, 15) / 10, eri8(nr, 2, -6, 9) / 10
        g = sorted(rng.sample(range(-8, 9), 2))
        g = np.array(g) / 10
        qq = nr.randint(-9, 1, size=2) / 10
        w = rng.choice([.5, .8, 1.2])
        dse = rng.random() < .7
        f = 1.0 if kind == "SC" else rng.choice([.3, .5, .8, 1.0])
        r = 0.0 if kind == "SC" else rng.choice([0., 0., .2, -.1])
        eta = np.array([rng.randint(-8, 8), rng.randint(-8, 8)]) / 10
        a = rng.choice([0, 2, 7, 10]) / 10
        d = np.array([[ne - ne * a * .5, rng.choice([-4, 0, 3, 9]) / 10], [0, ne * a * .5]])
        d[1, 0] = d[0, 1]
        eb = rng.choice([0., .4])
        cs = rng.random() < .5
        z = rng.choice([0., .3, -.5])

        def run():
            kw = {} if cs or kind == "SC" else {"z_alpha": np.array([z])}
            mf = make(kind, mol, omega=np.array([w]), vec=np.array([[0, 0, 1.]]), nboson_states=nb, add_dse=dse, **kw)
            mf.get_bare_hcore = lambda mol=None: h.copy()
            mf.get_ovlp = lambda mol=None: np.eye(2)
            mf._eri = ao2mo.restore(8, eri, 2)
            mf.qed.gmat, mf.qed.q_lambda_ao = np.array([np.diag(g)]), np.array([np.diag(qq)])
            if kind == "VT":
                mf.qed.couplings_var = np.array([f])
            mf.get_cholesky()
            mf.init_var_params(d)
            e, _ = energy(mf, d, eta, f, r, c, eb)
            return {"e": fx(e - mf.energy_nuc()), "z": fx(mf.qed.z_alpha[0])}
        oc, out = outcome(run)
        zz = 0. if kind == "SC" else float(np.sum(np.diag(g) * d)) if cs else z
        e = {"op": "energy", "what": "the dressed energy can be computed", "oc": oc if oc == "ok" else "raise " + str(out), "d": fx(d), "tol": 250,
             "y": {"h": fx(h), "eri": fx(eri), "g": fx(g), "q": fx(qq), "w": fx(w), "dse": dse, "kind": kind},
             "x": {"eta": fx(eta), "f": fx(f), "r": fx(r), "pdm": fx(np.outer(c, c)), "z": fx(zz), "eb": fx(eb)}}
        if oc == "ok":
            e["e"] = out["e"]
        ev.append(e)

    # ---- molecules
    def densities(mol, n):
        m = scf.RHF(mol)
        m.verbose = 0
        m.kernel()
        s = mol.intor("int1e_ovlp")
        res = []
        for _ in range(n):
            x = nr.normal(size=s.shape) * .25
            c = m.mo_coeff @ np.linalg.qr(np.eye(len(s)) + x - x.T)[0]
            c = c[:, :mol.nelectron // 2]
            res.append(2 * c @ c.T)
        return res

    def even(nb):
        c = nr.normal(size=nb) * [1, 0, .4, 0][:nb]
        c[0] += 2
        return c / np.linalg.norm(c)

    for i in range(tier(8, 50)):
        kind = ["SC", "VT"][i % 2]
        mol = rng.choice([lih, hf, h4])
        nb = rng.choice([1, 1, 3]) if i % 4 < 2 else 3
        dse = rng.random() < .6
        w = rng.choice([.4, .5, .9])
        vec = np.array([[rng.uniform(-.1, .1) for _ in range(3)]])
        f = 1. if kind == "SC" else rng.uniform(.2, .9)
        r = 0. if kind == "SC" else rng.choice([0., .1, -.15])
        with vlib.quiet():
            ds = densities(mol, 3)
        c = even(nb)
        kick = nr.normal(size=mol.nao_nr()) * .1
        eb = lambda rr: float(w * np.dot(np.array(c) ** 2, (np.arange(nb) + .5) * np.cosh(2 * rr) - .5))
        got = {}

        def prep(cd):
            mf = make(kind, mol, cd=cd, omega=np.array([w]), vec=vec, nboson_states=nb, add_dse=dse, optimize_vsq=True)
            mf.get_cholesky()
            if kind == "VT":
                mf.qed.couplings_var = np.array([f])
                mf.qed.update_couplings()
            mf.init_var_params(ds[0])
            return mf

        def run(cd):
            mf = prep(cd)
            eta = np.ravel(mf.eta) + kick
            es, fs = zip(*[energy(mf, D, eta, f, r, c, eb(r)) for D in ds])
            de = r6([es[j + 1] - es[j] for j in range(2)])
            fs = [(x + x.T) / 2 for x in fs]
            tr = r6([np.sum((fs[j] + fs[j + 1]) / 2 * (ds[j + 1] - ds[j])) for j in range(2)])
            # gradients
            D = ds[0]
            mf.qed.e_boson_grad_r = np.array([w * np.dot(np.array(c) ** 2, (2 * np.arange(nb) + 1) * np.sinh(2 * r))])
            energy(mf, D, eta, f, r, c, eb(r), grad=True)
            ge = np.ravel(mf.eta_grad).copy()
            gf = np.ravel(mf.vlf_grad).copy() if kind == "VT" else np.zeros(1)
            gs = np.ravel(mf.vsq_grad).copy() if kind == "VT" else np.zeros(1)
            alt = []
            if kind == "VT":
                mf.grad_var_params_together(mf.dm_do, mf.g_dipole, dm=D)
                alt = r6(mf.eta_grad) + r6(mf.vlf_grad) + r6(mf.vsq_grad)
            h = 2e-4
            E = lambda *a: energy(mf, D, *a)[0]
            ne = []
            for k in range(len(eta)):
                dl = np.zeros_like(eta)
                dl[k] = h
                ne.append((E(eta + dl, f, r, c, eb(r)) - E(eta - dl, f, r, c, eb(r))) / 2 / h)
            nf = nsq = 0.
            if kind == "VT":
                nf = (E(eta * (f + h) / f, f + h, r, c, eb(r)) - E(eta * (f - h) / f, f - h, r, c, eb(r))) / 2 / h
                nsq = (E(eta, f, r + h, c, eb(r + h)) - E(eta, f, r - h, c, eb(r - h))) / 2 / h
            grad = {"geta": r6(ge), "neta": r6(ne), "gf": r6(gf), "nf": r6(nf), "gr": r6(gs), "nr": r6(nsq)}
            # the boson state is the best one for this density
            q = mf.qed
            best, others = 0, []
            if nb > 1:
                energy(mf, D, eta, f, r, c, eb(r))
                q.update_boson_coeff(D)
                cb = np.array(q.boson_coeff[:, 0])
                ebc = lambda x: float(w * np.dot(np.array(x) ** 2, (np.arange(nb) + .5) * np.cosh(2 * r) - .5))
                e0 = E(eta, f, r, cb, ebc(cb))
                for _ in range(4):
                    x = cb + nr.normal(size=nb) * [.3, 0, .3, 0][:nb]
                    x /= np.linalg.norm(x)
                    others.append(E(eta, f, r, x, ebc(x)) - e0)
                got.setdefault("cb", {})[cd] = r6(np.abs(cb))
            return {"de": de, "tr": tr, "grad": grad, "alt": alt, "es": r6(np.array(es) - es0[0]), "others": r6(others)}
        es0 = [0.]
        with vlib.quiet():
            try:
                m0 = prep(False)
                es0 = [energy(m0, ds[0], np.ravel(m0.eta) + kick, f, r, c, eb(r))[0]]
            except Exception:
                pass
        cols = {}
        for cd in (False, True):
            oc, out = outcome(run, cd)
            okk = "ok" if oc == "ok" else "raise " + str(out)
            base = {"oc": okk, "kind": kind, "nb": nb, "cd": cd, "dse": dse}
            if oc != "ok":
                ev.append(dict(base, op="same", what="energies and gradients can be computed on a molecule", v=[], tol=0))
                continue
            cols[cd] = out
            ev.append(dict(base, op="quadratic", what="", de=out["de"], tr=out["tr"]))
            ev.append(dict(base, op="grad", what="", **out["grad"]))
            if out["alt"]:
                g = out["grad"]
                ev.append(dict(base, op="same", what="both gradient implementations agree", v=[g["geta"] + g["gf"] + g["gr"], out["alt"]], tol=5))
            if out["others"]:
                ev.append(dict(base, op="min", what="the boson state minimises the energy", v=0, others=out["others"], tol=3))
        if len(cols) == 2:
            ev.append({"op": "same", "what": "Cholesky vectors reproduce energies and gradients", "oc": "ok", "tol": 60,
                       "v": [cols[k]["es"] + cols[k]["grad"]["geta"] + cols[k]["grad"]["gf"] + cols[k]["grad"]["gr"] for k in (False, True)]})
            if "cb" in got:
                ev.append({"op": "same", "what": "Cholesky vectors reproduce the boson state", "oc": "ok", "tol": 60, "v": [got["cb"][False], got["cb"][True]]})
    chk.validate("VarTrace", "VarTrace.cfg", ev, timeout=800)
    chk.assumptions += ["one cavity mode (the implementations support one)", "derivatives are compared with central differences of the code's own energy",
                        "atomic-orbital integrals and eigensolvers are PySCF's"]

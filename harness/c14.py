"""C14 - factorised, decomposed and imported integrals."""
import os, random, shutil, tempfile
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, proj
from c15 import eri8, sym


def body(chk):
    cases = chk.cases("Chol", "Chol.cfg", timeout=600)
    if tier(0, 1):
        chk.model("Chol", "CholDeep.cfg", timeout=800)
    from openms.qmc import tools, estimators
    from openms.lib import boson
    from pyscf import gto, ao2mo
    from pyscf.tools import fcidump
    rng = random.Random(vlib.SEED * 77 + 14)
    nr = np.random.RandomState(vlib.SEED * 41 + 14)
    s2 = [[0, (1.3, .5), (.4, .6)]]
    gc = [[0, (1.3, .5, .2), (.4, .6, -.7)]]
    p1 = [[1, (.9, 1.)]]
    gp = [[1, (.9, 1., .1), (.3, .2, 1.)]]
    with vlib.quiet():
        mk = lambda basis, atoms="H 0 0 0": gto.M(atom=atoms, basis={"H": basis}, spin=None, verbose=0, unit="Bohr")
        mols = {2: [mk(s2, "H 0 0 0; H 0 0 1.5"), mk(gc), mk(s2 + [[0, (.2, 1.)]])],
                3: [mk(p1), mk(gc + s2), mk(s2 + gc), mk(s2, "H 0 0 0; H 0 0 1.5; H 0 1.1 0")],
                4: [mk(s2 + p1), mk(p1 + s2), mk(gc, "H 0 0 0; H 0 0 1.5")],
                6: [mk(gp)]}
        real = [gto.M(atom="H 0 0 0; H 0 0 1.4", basis="631g", unit="Bohr", verbose=0), gto.M(atom="Li 0.1 0 0.2; H 0 0.3 3.0", basis="sto3g", unit="Bohr", verbose=0),
                gto.M(atom="H 0 0 0; F 0 0.2 1.8", basis="sto3g", unit="Bohr", verbose=0), mk(gc + p1, "H 0 0 0; H 0 0 1.5")]

    def injected(mol, eri, h=None):
        """A molecule whose integrals are the given ones."""
        mol = mol.copy()
        loc, orig = mol.ao_loc_nr(), mol.intor

        def intor(name, *a, **k):
            if name.startswith("int2e"):
                sh = k.get("shls_slice")
                if sh is None:
                    full = eri.astype(float)
                    sy = k.get("aosym", "s1")
                    return full if sy == "s1" else ao2mo.restore(int(sy[1]), full, len(full))
                s = [slice(loc[sh[2 * x]], loc[sh[2 * x + 1]]) for x in range(len(sh) // 2)]
                return np.array(eri[tuple(s)], dtype=float)
            if h is not None and name.startswith("int1e_kin"):
                return h.astype(float)
            if h is not None and name.startswith(("int1e_nuc", "int1e_rinv")):
                return np.zeros(h.shape)
            return orig(name, *a, **k)
        mol.intor = intor
        return mol
    ev = []
    rng.shuffle(cases)
    todo = [np.array(c["ls"], dtype=int).reshape(-1, 2, 2) for c in cases[:tier(120, 2000)]]
    for i in range(tier(150, 2500)):
        n = rng.choice([2, 3, 3, 4, 4, 4, 6])
        todo.append(np.array([sym(nr, n, -1, 2) for _ in range(rng.choice([1, 2, 3, 3]))]).reshape(-1, n, n))
    SC = 10 ** 4
    for i, ls in enumerate(todo):
        n = ls.shape[1]
        ng = rng.randint(0, len(ls)) if rng.random() < .6 else 0
        g, l0 = ls[:ng], ls[ng:]
        eri = np.einsum("npq,nrs->pqrs", l0, l0) if len(l0) else np.zeros((n,) * 4, dtype=int)
        h = sym(nr, n, -3, 3)
        mol = injected(rng.choice(mols[n]), eri, h)
        th = rng.choice([1e-9, 1e-9, 1e-6, .3, 1.5])
        gg = g.astype(float) if ng else None
        kind = rng.choice(["full", "fulleri", "blocked", "blocked", "cap", "h1full", "h1block", "h1block", "default"])
        x = np.eye(n, dtype=int)
        if kind.startswith("h1"):
            x = x[nr.permutation(n)] if rng.random() < .4 else np.triu(nr.randint(-1, 2, size=(n, n)), 1) + x
            th = rng.choice([1e-9, 1e-7])
        mx = 0

        def run():
            if kind == "full":
                return tools.chols_full(mol, thresh=th, g=gg)
            if kind == "fulleri":
                return tools.chols_full(mol, eri=eri.astype(float), thresh=th, g=gg)
            if kind == "blocked":
                return tools.chols_blocked(mol, thresh=th, g=gg)
            if kind == "cap":
                return tools.chols_blocked(mol, thresh=th, max_chol_fac=1, g=gg)
            if kind == "default":
                return tools.chols_blocked(mol, g=gg) if i % 2 else tools.chols_full(mol, g=gg)
            return tools.get_h1e_chols(mol, Xmat=x.astype(float), thresh=th, g=gg, block_decompose_eri=kind == "h1block")
        oc, out = outcome(run)
        if kind == "cap":
            mx = n
        if kind == "default":
            th = 1e-6
        e = {"op": "fact", "oc": oc if oc == "ok" else "raise " + str(out), "n": n, "ls": ls.tolist(), "x": x.tolist(), "s": SC, "th": int(th * SC) + 2, "max": mx, "h1": kind.startswith("h1"), "kind": kind}
        if oc == "ok":
            if e["h1"]:
                hh, out, nuc = out
                e.update(h=proj_list(hh), h0=h.tolist(), nuc=proj(nuc, 1e6, 1e-2), nuc0=proj(mol.energy_nuc(), 1e6, 1e-2))
            L = np.asarray(out).reshape(len(out), n * n)
            P = L.T @ L if len(L) else np.zeros((n * n, n * n))
            e.update(p=[[int(round(y * SC)) if np.isfinite(y) and abs(y) < 1e4 else vlib.NOTINT for y in r] for r in P], nv=len(out),
                     sym=bool(len(L) == 0 or np.abs(np.asarray(out) - np.asarray(out).transpose(0, 2, 1)).max() < 1e-5))
        ev.append(e)

    # ---- bilinear decomposition
    for i in range(tier(24, 150)):
        n, nm = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        l = np.array([sym(nr, n, -2, 3) for _ in range(nm)]).reshape(nm, n, n)
        a, b = [rng.randint(-3, 3) for _ in range(nm)], [rng.randint(-3, 3) for _ in range(nm)]
        sch = rng.choice([1, 2])
        oc, out = outcome(tools.bilinear_decomposition, np.array(a, dtype=float), np.array(b, dtype=float), l.astype(float), sch)
        e = {"op": "bilinear", "oc": oc if oc == "ok" else "raise " + str(out), "a": a, "b": b, "l": l.tolist(), "s2": sch}
        if oc == "ok":
            f = np.sqrt(sch)
            ee, bb = np.asarray(out[0]), np.asarray(out[1])
            e.update(er=proj_list(ee.real, f), ei=proj_list(ee.imag, f), br=proj_list(bb.real, f), bi=proj_list(bb.imag, f))
        ev.append(e)

    # ---- integrals read from a file
    scratch = tempfile.mkdtemp(prefix="fcidump_")
    try:
        for i in range(tier(8, 40)):
            n = rng.choice([1, 2, 3])
            h, eri = sym(nr, n, -4, 4), eri8(nr, n, -3, 4)
            nuc = rng.randint(-5, 9)
            fn = os.path.join(scratch, "F%d" % i)
            with vlib.quiet():
                fcidump.from_integrals(fn, h.astype(float), ao2mo.restore(rng.choice([1, 4, 8]), eri.astype(float), n), n, 2, nuc=float(nuc))
            oc, out = outcome(tools.read_fcidump, fn, n)
            e = {"op": "read", "oc": oc if oc == "ok" else "raise " + str(out), "h0": h.tolist(), "eri0": eri.tolist(), "nuc0": nuc}
            if oc == "ok":
                e.update(h=proj_list(out[0]), eri=proj_list(out[1]), nuc=proj(out[2]))
            ev.append(e)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # ---- low-rank plans and their exchange energy
    for i in range(tier(16, 100)):
        n, nl, nw = rng.choice([2, 3, 4]), rng.choice([1, 2, 3]), rng.choice([1, 2])
        ls = []
        for _ in range(nl):
            v = nr.randint(-1, 2, size=(n, 1))
            m = v @ v.T if rng.random() < .5 else sym(nr, n, -1, 2)
            if rng.random() < .5:
                m = np.triu(np.tril(m, 1), -1)
            ls.append(m)
        if rng.random() < .3:
            ls[0] = np.zeros((n, n), dtype=int)
        ls = np.array(ls)
        G = nr.randint(-2, 3, size=(nw, n, n))

        def run():
            L = ls.astype(float)
            bw = tools.get_blksize(L, 1e-8)
            plan, meta = tools.build_Ltensor_plan(L, bw, max_rank_fraction=rng.choice([.3, .5, 1.]))
            ex = estimators.exx_mixed_rank_sparsity(L, G.astype(complex), plan, meta)
            return {"low": [p["type"] == "lowrank" for p in plan], "back": [proj_list(p["X"] @ p["Uright"].T) if p["type"] == "lowrank" else 0 for p in plan], "exx": proj_list(ex, 2)}
        oc, out = outcome(run)
        e = {"op": "plan", "oc": oc if oc == "ok" else "raise " + str(out), "ls": ls.tolist(), "g": G.tolist()}
        if oc == "ok":
            e.update(out)
        ev.append(e)
        oc, out = outcome(tools.stochastic_thc, ls.astype(float), n, method="svd")
        e = {"op": "svd", "oc": oc if oc == "ok" else "raise " + str(out), "ls": ls.tolist()}
        if oc == "ok":
            e["back"] = proj_list(np.einsum("gpk,gqk->gpq", *out))
        ev.append(e)

    # ---- molecules
    for i in range(tier(12, 60)):
        mol = rng.choice(real)
        n = mol.nao_nr()
        th = rng.choice([1e-2, 1e-4, 1e-6])
        nm = rng.choice([0, 1, 2])
        g = None
        if nm:
            g = nr.normal(size=(nm, n, n))
            g = .1 * (g + g.transpose(0, 2, 1))
        c = np.linalg.qr(nr.normal(size=(n, n)))[0]

        def run():
            h, L, e = tools.get_h1e_chols(mol, Xmat=c if i % 2 else None, thresh=th, g=g, block_decompose_eri=bool(i % 3))
            s = mol.intor("int1e_ovlp")
            w, v = np.linalg.eigh(s)
            x = c if i % 2 else v @ np.diag(w ** -.5) @ v.T
            V = mol.intor("int2e") + (np.einsum("npq,nrs->pqrs", g, g) if nm else 0)
            V = np.einsum("pi,qj,rk,sl,pqrs->ijkl", x, x, x, x, V, optimize=True)
            f = 1 if i % 2 else max(1, np.linalg.norm(x, 2) ** 4)
            return float(np.abs(V - np.einsum("npq,nrs->pqrs", L, L)).max() / f), len(L)
        oc, out = outcome(run)
        # the residual is positive: in other orthonormal orbitals its entries are bounded by its norm
        ev.append({"op": "mol", "oc": oc if oc == "ok" else "raise " + str(out), "err": int(min(out[0] * 1e9, 1e9)) if oc == "ok" else 0, "nv": out[1] if oc == "ok" else 0,
                   "th": int(th * 1e9 * n * n) + 10, "top": n * (n + 1) // 2})
    chk.validate("CholTrace", "CholTrace.cfg", ev, timeout=800)
    chk.assumptions += ["atomic-orbital integrals are PySCF's (molecules) or injected (integer systems)", "square orbital rotations"]

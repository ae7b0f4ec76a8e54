"""C09 - cavity modes: set-up, boson states, displacement, coupling matrices."""
import random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, proj, NOTINT

S = 10000
UNIT = [(0, 0, 1), (1, 2, 2), (3, 4, 0), (2, 3, 6), (0, 0, 2), (0, 3, 0), (-2, 1, 2), (0, 0, 0), (6, -2, 3), (4, 0, -3), (1, 0, 0)]


def fx(a):
    a = np.asarray(a)
    if a.ndim == 0:
        x = complex(a)
        if not np.isfinite(x.real) or abs(x.imag) > 1e-9 or abs(x.real) * S > 1.9e9:
            return NOTINT
        return int(round(x.real * S))
    return [fx(x) for x in a]


def form(rng, kind, val):
    if kind == "array":
        return np.array(val)
    return list(val)


def body(chk):
    chk.model("Boson", tier("Boson.cfg", "BosonDeep.cfg"), timeout=800)
    from openms.lib import boson as B
    from pyscf import gto
    rng = random.Random(vlib.SEED * 131 + 9)
    nr = np.random.RandomState(vlib.SEED * 17 + 9)
    with vlib.quiet():
        h2 = gto.M(atom="H 0 0 0; H 0 0 1.4", basis="sto3g", unit="Bohr", verbose=0)
        mols = [h2, gto.M(atom="Li 0.1 -0.2 0.3; H 0.1 0.7 1.9", basis="sto3g", unit="Bohr", verbose=0),
                gto.M(atom="H 0 0 0; H 0.3 0 1.5; H 1.1 0.4 -0.6", basis="sto3g", unit="Bohr", charge=1, verbose=0),
                gto.M(atom="He 0.5 0.2 -0.4; H 0 0.9 1", basis="sto3g", unit="Bohr", charge=1, verbose=0)]
    ev = []

    # ---- set-up
    for i in range(tier(120, 900)):
        nm = rng.choice([1, 1, 2, 3])
        okind = rng.choice(["float", "list", "array", "array"]) if nm == 1 else rng.choice(["list", "array"])
        if rng.random() < .05:
            okind = rng.choice(["int", "str", "none"])
            nm = 1
        om = [rng.choice([50, 100, 150, 200, 400, 25]) for _ in range(nm)]
        omega = {"float": om[0] / 100, "list": [x / 100 for x in om], "array": np.array(om) / 100, "int": 1, "str": "0.5", "none": None}[okind]
        rows = nm if rng.random() < .93 else nm + 1
        cols = 3 if rng.random() < .95 else 2
        vec = [list(rng.choice(UNIT))[:cols] for _ in range(rows)]
        vin = np.array(vec, dtype=rng.choice([float, int])) if rng.random() < .6 else vec
        gkind = rng.choice(["none", "none", "list", "array"])
        glen = nm if rng.random() < .93 else nm + 1
        gf = [rng.choice([1, 2, 3, 0]) for _ in range(glen)]
        nbkind = rng.choice(["int", "int", "list", "array"])
        if rng.random() < .04:
            nbkind = "other"
        nb = [rng.randint(1, 4) for _ in range(1 if nbkind == "int" else nm)]
        if rng.random() < .06:
            nb[-1] = rng.choice([0, -1])
        if nbkind in ("list", "array") and rng.random() < .06:
            nb = nb + [2]
        nbin = {"int": nb[0], "list": list(nb), "array": np.array(nb), "other": "2"}[nbkind]
        zkind = rng.choice(["none", "none", "none", "list", "array"])
        zlen = nm if rng.random() < .93 else nm + 1
        z = [rng.randint(-3, 3) for _ in range(zlen)]
        kw = {}
        if gkind != "none":
            kw["gfac"] = form(rng, gkind, gf)
        if zkind != "none":
            kw["z_alpha"] = form(rng, zkind, z)
        var = [50] * nm
        if rng.random() < .5:
            var = [rng.choice([0, 25, 100, 75]) for _ in range(nm)]
            kw["couplings_var"] = [x / 100 for x in var]
        oc, p = outcome(B.Photon, rng.choice(mols), omega=omega, vec=vin, nboson_states=nbin, **kw)
        e = {"op": "make", "oc": oc if oc == "ok" else "raise " + str(p),
             "c": {"nm": nm, "omkind": okind, "omega": om, "vecrows": rows, "veccols": cols, "vec": [v + [0] * (3 - cols) for v in vec], "gkind": gkind, "glen": glen,
                   "gfac": gf, "nbkind": nbkind, "nb": nb, "zkind": zkind, "zlen": zlen, "z": z, "var": var}}
        if oc == "ok":
            oc2, d = outcome(lambda: {
                "nm": int(p.nmodes), "omega": proj_list(np.ravel(p.omega), 100), "vec": fx(p.vec), "gf": proj_list(p.gfac), "g": proj_list(p.couplings),
                "bil": fx(p.couplings_bilinear), "bil2": proj_list(2 * p.couplings_bilinear ** 2, 100), "self2": proj_list(2 * p.couplings_self),
                "res": proj_list(p.couplings_res, 100), "nb": [int(x) for x in p.nboson_states], "cs": bool(p.use_cs), "z": proj_list(p.z_alpha)})
            if oc2 == "ok":
                e.update(d)
            else:
                e["oc"] = "fields " + str(d)
        ev.append(e)

    # ---- packing
    for i in range(tier(20, 150)):
        n = rng.randint(1, 5)
        a, b = rng.randrange(6), rng.randrange(6)
        oc, out = outcome(B.packed_index, a, b)
        ev.append({"op": "index", "i": a, "j": b, "oc": oc, "out": int(out) if oc == "ok" else -1})
        m = nr.randint(-9, 10, size=(n, n))
        m = m + m.T
        oc, out = outcome(B.pack_symmetric, m.astype(float))
        ev.append({"op": "pack", "a": m.tolist(), "oc": oc, "out": proj_list(out) if oc == "ok" else []})
        fac = rng.choice([1, 2])
        v = 2 * nr.randint(-9, 10, size=n * (n + 1) // 2)
        oc, out = outcome(B.unpack_symmetric, v.astype(float), n, fac=float(fac))
        ev.append({"op": "unpack", "a": v.tolist(), "n": n, "fac": fac, "oc": oc, "out": proj_list(out) if oc == "ok" else []})

    # ---- Hamiltonian of the modes
    for i in range(tier(20, 120)):
        nm = rng.choice([1, 2, 3])
        ns = [rng.randint(1, 4) for _ in range(nm)]
        om = [rng.choice([50, 100, 30, 170]) for _ in range(nm)]
        za = [rng.randint(-150, 150) for _ in range(nm)]
        r = [rng.choice([0, 0, 20, -30, 55]) for _ in range(nm)]
        oc, out = outcome(B.get_bosonic_Ham, nm, ns, np.array(om) / 100, np.array(za) / 100, np.array(r) / 100)
        ev.append({"op": "ham", "ns": ns, "omega": om, "za": za, "r": r, "oc": oc, "out": fx(out) if oc == "ok" else []})

    def photon(nm, ns, om, **kw):
        return B.Photon(h2, omega=np.array(om, dtype=float), vec=np.array([rng.choice(UNIT[:4]) for _ in range(nm)], dtype=float), nboson_states=list(ns), **kw)

    # ---- displacement
    for i in range(tier(24, 160)):
        nm = rng.choice([1, 2])
        ns = [rng.randint(1, 5) for _ in range(nm)]
        mode = rng.randrange(nm)
        with vlib.quiet():
            p = photon(nm, ns, [0.5] * nm)
        n = ns[mode]
        pdm = nr.randint(-2, 3, size=(n, n))
        pdm = np.triu(pdm) + np.triu(pdm, 1).T
        shape = rng.choice([(3, 3), (3, 3), (2, 2, 2, 2)])
        fac = nr.randint(-16, 17, size=shape) / 10.0
        if rng.random() < .2:
            fac[0, 0] = 0.0
        scaled = rng.random() < .7

        def run():
            f0 = fac.copy()
            a = p.displacement_exp_val(mode, fac, pdm.astype(float), scale_by_exp=scaled)
            b = p.displacement_matrix(mode, fac, pdm.astype(float), scale_by_exp=scaled)
            c = p.displacement_deriv(mode, fac, pdm.astype(float))
            d = p.displacement_deriv_vt(mode, fac, pdm.astype(float))
            s = p.displacement_deriv_vsq(mode, fac, pdm.astype(float))
            assert np.array_equal(f0, fac)
            return [fx(np.ravel(x)) for x in (a, b, c, d, s)]
        oc, out = outcome(run)
        e = {"op": "disp", "pdm": pdm.tolist(), "f": fx(fac.ravel()), "scaled": scaled, "oc": oc if oc == "ok" else "raise " + out}
        if oc == "ok":
            e.update(dict(zip(("val", "mat", "der", "dvt", "dsq"), out)))
        ev.append(e)

    # ---- state of the modes
    for i in range(tier(30, 200)):
        nm = rng.choice([1, 1, 2, 3])
        ns = [rng.randint(1, 4) for _ in range(nm)]
        om = [rng.choice([50, 100, 30, 170]) for _ in range(nm)]
        var = [rng.choice([0, 0, 25, 50, 100]) for _ in range(nm)]
        r = [rng.choice([0, 0, 20, -30]) for _ in range(nm)]
        z = [rng.randint(-3, 3) for _ in range(nm)]
        g = nr.randint(-1, 2, size=(nm, 2, 2))
        g = g + g.transpose(0, 2, 1)
        dm = np.diag(nr.randint(0, 2, size=2)) + np.array([[0, 1], [1, 0]]) * rng.choice([0, 0, 1])

        def run():
            p = photon(nm, ns, np.array(om) / 100, couplings_var=np.array(var) / 100, squeezed_var=np.array(r) / 100, z_alpha=np.array(z, dtype=float))
            p.gmat = g.astype(float)
            p.update_boson_coeff(dm.astype(float))
            return {"coef": fx(p.boson_coeff[:, 0]), "eb": fx(p.e_boson), "gr": fx(p.e_boson_grad_r), "occ": fx(p.get_boson_occ()),
                    "pdm": [fx(p.get_boson_dm(m)) for m in range(nm)], "bb": [fx(p.get_bdag_minus_b_expval(m)) for m in range(nm)]}
        oc, out = outcome(run)
        e = {"op": "update", "ns": ns, "omega": om, "var": var, "r": r, "z": z, "g": g.tolist(), "dm": dm.tolist(), "oc": oc if oc == "ok" else "raise " + out,
             "trials": [[nr.randint(-3, 4, size=n).tolist() for _ in range(6)] + np.eye(n, dtype=int).tolist() for n in ns]}
        if oc == "ok":
            e.update(out)
        ev.append(e)

    # ---- coupling matrices in the AO basis
    for i in range(tier(16, 80)):
        mol = rng.choice(mols)
        nm = rng.choice([1, 2, 3])
        vec = [list(rng.choice(UNIT)) for _ in range(nm)]
        om = [rng.choice([50, 100, 30, 170]) for _ in range(nm)]
        gf = [rng.choice([5, 10, 50, 100, 0, 30]) for _ in range(nm)]
        sh = [rng.choice([0, 50, -120, 30]) for _ in range(3)] if rng.random() < .6 else None
        nuc = rng.random() < .7

        def run():
            kw = {} if sh is None else {"origin_shift": np.array(sh) / 100}
            mk = lambda: B.Photon(mol, omega=np.array(om) / 100, vec=np.array(vec, dtype=float), gfac=np.array(gf) / 100, add_nuc_dipole=nuc, **kw)
            p = mk()
            geb = [fx(p.get_geb_ao(m)) for m in range(nm)]
            geb2 = [fx(p.get_geb_ao(m)) for m in range(nm)]
            assert geb == geb2, "repeated call"
            p.get_gmatao()
            p.get_q_dot_lambda()
            d = {"dip": fx(p.get_dipole_ao()), "quad": fx(p.get_quadrupole_ao()), "g": fx(p.gmat), "ql": fx(p.q_lambda_ao), "geb": geb}
            p2 = mk()
            p2.dipole_ao, p2.quadrupole_ao = p2.get_dipole_ao(), p2.get_quadrupole_ao()
            d["g2"], d["ql2"] = fx(p2.get_gmat_ao()), fx(p2.get_q_lambda_ao())
            return d
        oc, out = outcome(run)
        with mol.with_common_orig((0, 0, 0)):
            r0, rr = mol.intor("int1e_r"), mol.intor("int1e_rr")
        e = {"op": "ao", "vec": vec, "omega": om, "gf": gf, "nuc": nuc, "shift": [x * 100 for x in (sh or [0, 0, 0])], "oc": oc if oc == "ok" else "raise " + out,
             "q": [int(x) for x in mol.atom_charges()], "xyz": fx(mol.atom_coords()), "s": fx(mol.intor("int1e_ovlp")), "r": fx(r0), "rr": fx(rr)}
        if oc == "ok":
            e.update(out)
        ev.append(e)
    chk.validate("BosonTrace", "BosonTrace.cfg", ev, timeout=800)
    chk.assumptions += ["overlap, dipole and quadrupole integrals of the atomic orbitals about the coordinate origin come from PySCF",
                        "matrix elements are compared to 4 decimals (displacement to 0.04)"]

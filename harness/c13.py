"""C13 - lattice models."""
import random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, proj
from c17 import i7

K9 = ("vvvv", "vvvo", "vovv", "vvoo", "oovv", "vovo", "vooo", "ooov", "oooo")
K16 = ("vvvv", "vvvo", "vvov", "vovv", "ovvv", "vvoo", "vovo", "ovvo", "voov", "ovov", "oovv", "vooo", "ovoo", "oovo", "ooov", "oooo")
K2 = ("oo", "ov", "vo", "vv")


def common(m, w=1):
    f, ga = m.g_fock(), m.g_aint()
    uh = m.u_hcore_tot()
    return {"tS": proj_list(m.tmatS()), "t": proj_list(m.tmat()), "uS": proj_list(m.umatS()), "u": proj_list(m.umat()), "fock": proj_list(m.fock()),
            "gf": {k: proj_list(getattr(f, k), w) for k in K2}, "ga": {k: proj_list(getattr(ga, k)) for k in K9}, "gh": proj_list(m.g_hcore_tot()),
            "uha": proj_list(uh[0]), "uhb": proj_list(uh[1]), "e": proj(m.hf_energy(), w)}


def body(chk):
    chk.model("Lat", tier("Lat.cfg", "LatDeep.cfg"), timeout=800)
    from openms.models import hubbard, hh_model, aggregates
    rng = random.Random(vlib.SEED * 71 + 13)
    nr = np.random.RandomState(vlib.SEED * 23 + 13)
    ev = []
    for i in range(tier(24, 160)):
        ring = rng.random() < .5
        l = rng.choice([3, 3, 4] if ring else [2, 2, 3, 3])
        if l == 4 and i % 3:
            l = 3
        n = rng.randint(1, 2 * l - 1)
        ca, cb = nr.randint(-1, 2, size=(2, l, l))
        u = rng.choice([-2, 1, 3])

        def run():
            m = hubbard.Hubbard1D(l, n, u, bc="p" if ring else None, ca=ca.astype(float), cb=cb.astype(float))
            d = common(m)
            ua, uf, uat, uit = m.u_aint(), m.u_fock(), m.u_aint_tot(), m.u_int_tot()
            d.update(ua=[{k: proj_list(getattr(ua[s], k)) for k in (K9 if s < 2 else K16)} for s in range(3)], uf=[{k: proj_list(getattr(uf[s], k)) for k in K2} for s in range(2)],
                     uat=[proj_list(x) for x in uat], uit=[proj_list(x) for x in uit], gat=proj_list(m.g_aint_tot()), git=proj_list(m.g_int_tot()))
            return d
        oc, out = outcome(run)
        e = {"op": "hubbard", "oc": oc if oc == "ok" else "raise " + str(out), "y": {"l": l, "u": u, "ring": ring, "two": 1, "ca": ca.tolist(), "cb": cb.tolist(), "na": n - n // 2, "nb": n // 2, "g": [], "w": 1, "shift": False}}
        if oc == "ok":
            e.update(out)
        ev.append(e)
    for i in range(tier(24, 160)):
        ring = rng.random() < .5
        l = rng.choice([2, 2, 3, 3])
        n = 2 * rng.randint(1, l - 1)
        ca, cb = nr.randint(-1, 2, size=(2, l, l))
        u, w, g = rng.choice([-2, 1, 3]), rng.choice([1, 2, 3]), rng.choice([-1, 1, 2])
        gij = rng.choice([None, None, 1, -2])
        if ring and l == 2:
            gij = None
        shift = rng.random() < .7
        gm = np.zeros((l, l, l), dtype=int)
        for s in range(l):
            gm[s, s, s] = g
        if gij is not None:
            for a in range(l - 1):
                gm[:, a, a + 1] = gm[:, a + 1, a] = gij
            if ring:
                gm[:, 0, l - 1] = gm[:, l - 1, 0] = gij

        def run():
            kw = {} if shift and i % 2 else {"shift": shift}
            if gij is not None:
                kw["gij"] = gij
            m = hh_model.HHModel(l, l, n, u, float(w), g=g, bc="p" if ring else None, ca=ca.astype(float), cb=cb.astype(float), **kw)
            d = common(m, w)
            (g1, g2), (m1, m2) = m.gint(), m.mfG()
            assert all(np.array_equal(getattr(g1, k), getattr(g2, k)) for k in K2) and np.array_equal(m1, m2)
            eo, ev_ = m.energies()
            f = m.g_fock()
            assert np.allclose(eo, np.diag(f.oo)) and np.allclose(ev_, np.diag(f.vv))
            d.update(gi={k: proj_list(getattr(g1, k)) for k in K2}, git=proj_list(m.gint_tot()), gm=proj_list(m.gmat), mfg=proj_list(m1), w=proj_list(m.omega()))
            return d
        oc, out = outcome(run)
        e = {"op": "holstein", "oc": oc if oc == "ok" else "raise " + str(out), "y": {"l": l, "u": u, "ring": ring, "two": 2, "ca": ca.tolist(), "cb": cb.tolist(), "na": n // 2, "nb": n // 2, "g": gm.tolist(), "w": w, "shift": shift}}
        if oc == "ok":
            e.update(out)
        ev.append(e)
    for cls in ("hubbard", "holstein"):
        def run():
            c = np.eye(3)
            m = hubbard.Hubbard1D(3, 2, 1., bc="x", ca=c, cb=c) if cls == "hubbard" else hh_model.HHModel(3, 3, 2, 1., 1., g=.1, bc="x", ca=c, cb=c)
            return m.tmatS()
        ev.append({"op": "refuse", "oc": outcome(run)[0]})

    # ---- orbitals the model finds itself solve its mean field
    for i in range(tier(8, 40)):
        l = rng.choice([2, 4, 6])
        u, bc = rng.choice([.5, 2., 6.]), rng.choice(["p", None])
        n = l

        def run():
            m = hh_model.HHModel(l, l, n, u, 1.3, g=0.0, bc=bc)
            f, g = m.fock(), m.g_fock()
            F0 = f[:l, :l], f[l:, l:]
            k = n // 2
            return ([0] + [i7(x, 1e5) for x in np.r_[g.ov.ravel(), g.vo.ravel()]],
                    [0] + [i7(x, 1e6) for x in np.r_[(m.ca.T @ m.ca - np.eye(l)).ravel(), (m.cb.T @ m.cb - np.eye(l)).ravel()]],
                    [0, i7(np.sum(F0[0] * m.pa) + np.sum(F0[1] * m.pb) - u * np.sum(np.diag(m.pa) * np.diag(m.pb)) - m.hf_energy(), 1e6)])
        oc, out = outcome(run)
        for j, what in enumerate(("orbitals found solve the mean field", "orbitals found are orthonormal", "energy counts the repulsion once")):
            ev.append({"op": "same", "what": what, "oc": oc if oc == "ok" else "raise " + str(out), "v": out[j] if oc == "ok" else [], "tol": 5})

    # ---- disordered aggregates
    for i in range(tier(8, 40)):
        ns = rng.choice([1, 2, 3, 5, 8])
        ne = rng.randint(1, ns + 2)
        eps, hop, sg, gam = rng.uniform(-1, 1), rng.choice([-.3, .1, .2]), rng.choice([0., .5]), .05

        def run():
            random.seed(vlib.SEED * 1000 + i)
            m = aggregates.DMA(ns, ne, epsilon=eps, hopping=hop, sigma=sg)
            m.kernel()
            m.kernel()
            a = np.array(m.A)
            m.dipole()
            x = [eps - .2, eps, eps + .3]
            sp = m.linearabs(x, gamma=gam)
            sel = sorted(rng.sample(range(ns), 1))
            sp1 = m.linearabs(x, selected=sel, gamma=gam)
            k = min(ne, ns)
            w, v = np.linalg.eigh(a)
            off = a - np.diag(np.diag(a)) - hop * (np.eye(ns, k=1) + np.eye(ns, k=-1))
            d = m.excdipole1
            lor = lambda st: np.array([sum(d[j] ** 2 * gam / ((y - m.evals[j]) ** 2 + gam ** 2) for j in st) for y in x])
            return ([0] + [i7(y, 1e6) for y in np.r_[off.ravel(), (a @ m.evecs - m.evecs * m.evals).ravel(), m.evals - w]],
                    [0, i7(np.sum(d ** 2) - ns, 1e6)] + [i7(y, 1e6) for y in np.abs(d) - np.abs(m.evecs.sum(0))],
                    [0] + [i7(y, 1e6) for y in np.r_[m.energies() - w[:k], sp - lor(range(k)), sp1 - lor(sel)]],
                    [0] + [i7(y, 1e6) for y in (np.diag(a) - eps if sg == 0 else np.diag(a) - np.array(m.En))])
        oc, out = outcome(run)
        for j, what in enumerate(("eigenstates of the chain in order of energy", "dipole strengths are the states' own and add up to the number of sites", "energies and spectrum use the requested states", "site energies are those drawn")):
            ev.append({"op": "same", "what": what, "oc": oc if oc == "ok" else "raise " + str(out), "v": out[j] if oc == "ok" else [], "tol": 5})
    for i in range(tier(4, 20)):
        ns, nuv, ne, gam = rng.choice([2, 3]), rng.choice([1, 2]), 3, .05
        w1, d1, w2, d2, x = nr.normal(size=ns), nr.normal(size=ns), nr.normal(size=(ns, nuv)), nr.normal(size=(ns, nuv)), nr.normal(size=ne)
        st = sorted(rng.sample(range(ns), rng.randint(1, ns)))

        def run():
            r = aggregates.tdes(x, st, w1, d1, nuv, w2, d2, gam)
            lor = lambda e, w, d: d * d * gam / ((e - w) ** 2 + gam ** 2)
            want = [[sum((2 * lor(a, w1[j], d1[j]) - sum(lor(a, w2[v, k], d2[v, k]) for k in range(nuv))) * lor(b, w1[j], d1[j]) for v, j in enumerate(st)) for b in x] for a in x]
            return [0] + [i7(y, 1e6) for y in ((r - np.array(want)) / np.abs(want).max()).ravel()]
        oc, out = outcome(run)
        ev.append({"op": "same", "what": "two-dimensional spectrum: detection over excitation energy", "oc": oc if oc == "ok" else "raise " + str(out), "v": out if oc == "ok" else [], "tol": 5})
    chk.validate("LatTrace", "LatTrace.cfg", ev, timeout=800)
    chk.assumptions += ["couplings on the closing bond of a two-site ring, Hubbard1D rings of two sites, odd electron numbers with phonons and the orbital search without symmetry breaking are not examined"]

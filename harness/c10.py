"""C10 - QED-FCI is the electron-boson Hamiltonian in the configuration basis."""
import random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, NOTINT

S = 10000


def fx(a, k=1):
    a = np.asarray(a, dtype=complex)
    def one(x):
        if abs(x.imag) > 1e-9 or not np.isfinite(x.real) or abs(x.real) * S * k > 1.9e9:
            return NOTINT
        return int(round(x.real * S * k))
    return [one(x) for x in a.ravel()]


def body(chk):
    chk.model("Fock", tier("Fock.cfg", "FockDeep.cfg"), timeout=800)
    from openms.mqed import qedfci as q
    rng = random.Random(vlib.SEED * 101 + 10)
    nr = np.random.RandomState(vlib.SEED * 7 + 10)
    ev = []

    def ints(shape, lo, hi, p=1.0):
        a = nr.randint(lo, hi + 1, size=shape)
        if p < 1:
            a = a * (nr.random_sample(shape) < p)
        return a

    def space(full=True):
        norb = rng.choice([1, 2, 2, 3, 3])
        na, nb = rng.randint(0, norb), rng.randint(0, norb)
        if norb == 3 and rng.random() < .5:
            na = rng.randint(1, 2)
        nm = rng.choice([1, 1, 2, 2, 3])
        top = [rng.randint(0, 3 if nm < 3 else 1) for _ in range(nm)]
        if nm == 3:
            top[rng.randrange(3)] = 2
        return norb, na, nb, top

    def nel(na, nb):
        # nelec may be a pair or the total (split evenly, alpha first)
        return na + nb if na in (nb, nb + 1) and rng.random() < .4 else (na, nb)

    def vec(dim):
        st = rng.random()
        if st < .3:
            v = np.zeros(dim, dtype=int)
            v[rng.randrange(dim)] = rng.choice([1, -1, 2])
            return v
        return ints(dim, -2, 2)

    def rec(op, sp, oc, out, k=1, **kw):
        norb, na, nb, top = sp
        e = {"op": op, "norb": norb, "na": na, "nb": nb, "top": top, "oc": oc if oc != "raise" else "raise " + str(out),
             "out": fx(out, k) if oc == "ok" else []}
        for key, val in kw.items():
            e[key] = val.tolist() if isinstance(val, np.ndarray) else val
        ev.append(e)

    n = tier(12, 90)
    for i in range(n):
        for op in ("shape", "1e", "2e", "2e0", "2espin", "hub", "cre", "des", "bb", "bb1", "bbz", "eb", "ebsite", "all", "rdm1e", "rdm2e", "rdm1p"):
            sp = space()
            while op in ("2e", "2espin", "2e0", "all", "rdm2e") and sp[0] == 3 and sum(sp[3]) > 3:
                sp = space()
            norb, na, nb, top = sp
            nm = len(top)
            ne = nel(na, nb)
            bs = np.array(top) if rng.random() < .7 else list(top)
            if op == "ebsite":
                while nm > norb:
                    sp = space()
                    norb, na, nb, top = sp
                    nm = len(top)
                ne, bs = nel(na, nb), list(top)
            if op == "shape":
                if len(set(top)) == 1 and rng.random() < .5:
                    bs = int(top[0])
                oc, out = outcome(q.fboson_ci_shape, norb, ne, nm, bs)
                rec("shape", sp, oc, [])
                ev[-1]["out"] = [int(x) for x in out] if oc == "ok" else []
                continue
            import math
            shape = (math.comb(norb, na), math.comb(norb, nb)) + tuple(t + 1 for t in top)
            dim = int(np.prod(shape))
            v = vec(dim)
            vin = v.astype(float)
            if rng.random() < .5:
                vin = vin.reshape(shape)
            if op == "1e":
                h = ints((norb, norb), -3, 3)
                oc, out = outcome(q.contract_1e, h.astype(float), vin, norb, ne, nm, bs)
                rec("1e", sp, oc, out, v=v, h=h)
            elif op == "2e":
                g = ints((norb,) * 4, -2, 2, .7)
                oc, out = outcome(q.contract_2e, g.astype(float), vin, norb, ne, nm, bs)
                rec("2e", sp, oc, out, v=v, g=g)
            elif op == "2e0":
                g = ints((norb,) * 4, -2, 2, .7)
                oc, out = outcome(q.contract_2e_spin0, g.astype(float), vin, norb, ne, nm, bs)
                rec("2e", sp, oc, out, v=v, g=g)
            elif op == "2espin":
                gs = [ints((norb,) * 4, -2, 2, .6) for _ in range(3)]
                oc, out = outcome(q.contract_2e, [x.astype(float) for x in gs], vin, norb, ne, nm, bs)
                rec("2espin", sp, oc, out, v=v, g=gs[0], gab=gs[1], gbb=gs[2])
            elif op == "hub":
                u = rng.choice([1, 2, -3])
                oc, out = outcome(q.contract_2e_hubbard, float(u), vin, norb, ne, nm, bs)
                rec("hub", sp, oc, out, v=v, u=u)
            elif op in ("cre", "des"):
                m = rng.randrange(nm)
                oc, out = outcome(getattr(q, op + "_boson"), vin, norb, ne, nm, bs, m)
                rec(op, sp, oc, out, v=v, mode=m + 1)
            elif op in ("bb", "bb1", "bbz"):
                w = ints((nm, nm), -2, 3)
                z = ints((nm,), -2, 2) if op == "bbz" else np.zeros(0, dtype=int)
                wa = w
                if op == "bb1":
                    w = np.diag(np.diag(w))
                    wa = np.diag(w).copy()
                oc, out = outcome(q.contract_bb, wa.astype(float), vin, norb, ne, nm, bs, *([z.astype(float)] if op == "bbz" else []))
                rec("bb", sp, oc, out, v=v, w=w, z=z)
            elif op == "eb":
                g = ints((nm, norb, norb), -2, 2)
                oc, out = outcome(q.contract_eb, g.astype(float), vin, norb, ne, nm, bs)
                rec("eb", sp, oc, out, v=v, geb=g)
            elif op == "ebsite":
                g = ints((nm,), -2, 2)
                oc, out = outcome(q.contract_eb_new, g.astype(float), vin, norb, ne, nm, bs)
                rec("ebsite", sp, oc, out, nm, v=v, gs=g)
            elif op == "all":
                h = ints((norb, norb), -2, 2)
                g = ints((norb,) * 4, -2, 2, .6)
                w = ints((nm, nm), -2, 3)
                geb = ints((nm, norb, norb), -2, 2)
                def full():
                    h2 = q.absorb_h1e(h.astype(float), g.astype(float), norb, ne, 0.5)
                    return q.contract_all(h.astype(float), h2, geb.astype(float), w.astype(float), vin, norb, ne, nm, bs)
                oc, out = outcome(full)
                if na + nb == 0:
                    continue          # the one-electron part is spread over the electrons
                rec("all", sp, oc, out, 2, v=v, h=h, g=g, w=w, geb=geb)
            elif op == "rdm1e":
                oc, out = outcome(q.make_rdm1e, vin, norb, ne)
                rec("rdm1e", sp, oc, [], v=v, rdm1=proj_list(out) if oc == "ok" else [])
            elif op == "rdm2e":
                oc, out = outcome(q.make_rdm12e, vin, norb, ne)
                rec("rdm1e", sp, oc, [], v=v, rdm1=proj_list(out[0]) if oc == "ok" else [])
                rec("rdm2e", sp, oc, [], v=v, rdm2=proj_list(out[1]) if oc == "ok" else [])
            elif op == "rdm1p":
                oc, out = outcome(q.make_rdm1p, vin, norb, ne, nm, bs)
                rec("rdm1p", sp, oc, [], v=v, rdm1=[fx(r) for r in np.atleast_2d(out)] if oc == "ok" else [])
    # ---- the solver -------------------------------------------------------
    for i in range(tier(10, 60)):
        while True:
            norb, na, nb, top = space()
            import math
            dim = math.comb(norb, na) * math.comb(norb, nb) * int(np.prod([t + 1 for t in top]))
            if norb > 1 and 0 < na + nb and 4 <= dim <= 60:
                break
        nm = len(top)
        h = ints((norb, norb), -2, 2); h = h + h.T
        g = ints((norb, norb, norb), -1, 1)
        L = [ints((norb, norb), -1, 1) for _ in range(2)]
        L = [x + x.T for x in L]
        g = sum(np.einsum("pq,rs->pqrs", x, x) for x in L) // 1
        w = np.diag(ints(nm, 1, 4))
        if nm > 1 and rng.random() < .5:
            w[0, 1] = w[1, 0] = 1
        geb = ints((nm, norb, norb), -1, 1); geb = geb + geb.transpose(0, 2, 1)
        ecore = rng.choice([0, 1, -2])
        shape = (math.comb(norb, na), math.comb(norb, nb)) + tuple(t + 1 for t in top)
        args = (h.astype(float), g.astype(float), norb, (na, nb), nm, np.array(top), geb.astype(float), w.astype(float))
        trials = [np.eye(dim, dtype=int)[k] for k in range(dim)][:12] + [ints(dim, -1, 1) for _ in range(3)]
        # a guess with no weight on the symmetry of the ground state would converge elsewhere: starts are generic
        oc, out = outcome(q.kernel, *args, verbose=0, ecore=float(ecore), max_cycle=400, tol=1e-12)
        others = []
        if oc == "ok":
            e = out[1]
            for _ in range(2):
                g0 = nr.random_sample(shape) - .5
                oc2, o2 = outcome(q.kernel, *args, verbose=0, ecore=float(ecore), max_cycle=400, tol=1e-12, init_ci=g0)
                others.append(fx(o2[1])[0] if oc2 == "ok" else NOTINT)
        rec("solve", (norb, na, nb, top), oc, out if oc == "raise" else [], h=h, g=g, w=w, geb=geb, ecore=ecore * S,
            e=fx(out[1])[0] if oc == "ok" else 0, c=fx(out[2]) if oc == "ok" else [],
            trials=[t.tolist() for t in trials], others=others)
    # ---- coherent-state representation ---------------------------------------
    for i in range(tier(3, 12)):
        nm = rng.choice([1, 1, 2])
        top = np.array([9] if nm == 1 else [5, 5])
        norb = 2
        h = np.array([[-1., -.5], [-.5, rng.choice([0., .5])]])
        L = np.array([[1., .2], [.2, -.6]])
        g = np.einsum("pq,rs->pqrs", L, L)
        w = np.diag([1.0, 1.5][:nm])
        if nm == 2 and rng.random() < .6:
            w[0, 1] = w[1, 0] = .3
        geb = np.array([[[.15, .1], [.1, -.2]], [[.1, -.05], [-.05, .12]]])[:nm]
        es = []
        oc = "ok"
        for cs in (False, True):
            for hb in ([w] if np.count_nonzero(w - np.diag(np.diag(w))) else [w, np.diag(w).copy()]):
                o1, out = outcome(q.kernel, h, g, norb, 2, nm, top, geb, hb, verbose=0, coherent_state=cs, max_cycle=300)
                oc = o1 if o1 != "ok" else oc
                es.append(fx(out[1])[0] if o1 == "ok" else NOTINT)
        ev.append({"op": "same", "oc": oc, "es": es, "tol": 20})
    chk.validate("FockTrace", "FockTrace.cfg", ev, timeout=800)
    chk.assumptions = ["real vectors and integrals (the code allocates real arrays)",
                       "amplitudes involving square roots are compared to about 0.04",
                       "determinant strings are laid out in the order of their bit patterns, as PySCF does"]

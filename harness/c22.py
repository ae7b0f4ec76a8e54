"""C22 - the simulation an AFQMC driver sets up is of the molecule it was given, however it is described."""
import os
os.environ["NUMBA_DISABLE_JIT"] = "1"
import random
import numpy as np
import vlib
from vlib import tier, outcome, proj, NOTINT

GEOM = {"h2": ("H 0 0 0; H 0.2 0.3 1.6", 0, 0), "lih": ("Li 0 0 0; H 0.3 0.2 2.9", 0, 0), "h3": ("H 0 0 0; H 0.2 0.1 1.7; H 0.9 1.5 0.3", 1, 0),
        "beh": ("Be 0 0 0; H 0.1 0.3 2.5", 1, 0), "h4": ("H 0 0 0; H 0.2 0.1 1.7; H 0.9 1.5 0.3; H 2.2 2.0 1.1", 2, 0)}
FREQ = np.array([0.5, 0.8])
VEC = np.array([[0.1, 0.05, 0.35], [0.2, -0.15, 0.1]])


def num(x, scale):
    """nearest integer of x*scale (the specification compares with a tolerance)."""
    x = complex(x)
    if not np.isfinite(x) or abs(x.imag) > 1e-7 or abs(x.real * scale) > 2 ** 30:
        return NOTINT
    return int(round(x.real * scale))


class World:
    def __init__(self):
        from pyscf import gto, scf
        from pyscf.data import nist
        from openms.qmc.afqmc import AFQMC
        from openms.mqed import qedhf
        import openms.lib.boson as bl
        from openms.qmc import tools
        self.gto, self.scf, self.nist, self.AFQMC, self.qedhf, self.bl, self.tools = gto, scf, nist, AFQMC, qedhf, bl, tools
        self.cache = {}

    def mol(self, name, frame):
        at, spin, charge = GEOM[name]
        atoms = []
        for part in at.split(";"):
            w = part.split()
            atoms.append((w[0], np.array([float(v) for v in w[1:]])))
        unit = "Bohr"
        if frame == "moved":
            c, s = np.cos(0.7), np.sin(0.7)
            rot = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]]) if all(a == "H" for a, _ in atoms) else np.eye(3)
            atoms = [(a, rot @ x + np.array([0.4, -0.3, 1.1])) for a, x in atoms]
        elif frame == "renumbered":
            atoms = atoms[::-1]
        elif frame == "angstrom":
            unit = "Angstrom"
            atoms = [(a, x * self.nist.BOHR) for a, x in atoms]
        return self.gto.M(atom=[(a, tuple(x)) for a, x in atoms], basis="sto3g", unit=unit, verbose=0, spin=spin, charge=charge)

    @staticmethod
    def dip(m):
        """Electronic dipole about the centre of nuclear charge."""
        z = m.atom_charges()
        with m.with_common_origin(np.einsum("i,ix->x", z, m.atom_coords()) / z.sum()):
            return -m.intor("int1e_r")

    def gmat(self, d, n):
        """The coupling handed in as matrices: the same operator whatever the frame."""
        m = self.mol(d["mol"], "renumbered" if d["frame"] == "renumbered" else "same")
        v = VEC[:n] * (0.0 if d["cav"] == "zero" else 1.0)
        return np.einsum("nx,xuv->nuv", v, self.dip(m))

    def mean(self, d, n):
        key = (d["mol"], d["frame"], d["orb"], d["cav"] if d["orb"] == "qed" else "")
        if key not in self.cache:
            m = self.mol(d["mol"], d["frame"])
            if d["orb"] == "hf":
                mf = self.scf.RHF(m)
            else:
                mf = self.qedhf.RHF(m, cavity_mode=VEC[:n].copy(), cavity_freq=FREQ[:n].copy(), nboson_states=3)
            mf.verbose, mf.conv_tol, mf.max_cycle = 0, 1e-13, 300
            mf.kernel()
            self.cache[key] = mf
        return self.cache[key]


MODES = {"none": 0, "one": 1, "two": 2, "zero": 2}


def setup(w, d, seed, scheme):
    n = MODES[d["cav"]]
    mf = None if d["own"] else w.mean(d, n)
    kw = dict(dt=0.02, total_time=0.08, num_walkers=4, energy_scheme=scheme, verbose=0, chol_thresh=1e-10, random_seed=seed, property_calc_freq=2,
              renorm_freq=2, pop_control_freq=3, pop_control_method="comb", propagator_options=dict(num_fake_fields=d["fake"]))
    if d["spin"] == "so":
        kw["use_so"] = True
    elif d["spin"] == "uhf":
        kw["uhf"] = True
    kw["OAO"] = d["rep"] == "OAO"
    if d["ints"] in ("block", "mblock"):
        kw["block_decompose_eri"] = True
    if d["ints"] in ("merged", "mblock"):
        kw["merge_g2eri"] = True
    if d["bil"]:
        kw["propagator_options"].update(decouple_bilinear=True, decouple_scheme=d["bil"])
    if not d["on"]:
        kw["propagator_options"]["turnoff_bosons"] = True
    if d["obj"] == "photon":
        system = mf.qed
    else:
        system = mf.mol if mf is not None and d["orb"] == "hf" else w.mol(d["mol"], d["frame"])
        if d["obj"] == "mol":
            kw.update(boson_freq=FREQ[:n].copy(), gmat=w.gmat(d, n))
    nuc = None
    if d["ints"] == "func":
        from pyscf import lo
        x = lo.orth.lowdin(system.intor("int1e_ovlp")) if kw["OAO"] else mf.mo_coeff
        h, l, nuc = w.tools.get_h1e_chols(system, Xmat=x, thresh=1e-10)
        nc = 2 if d["spin"] != "default" or system.spin else 1
        kw["integrals_func"] = lambda: (np.array([h] * nc), l)
    mc = w.AFQMC(system, mf=mf, **kw)
    if nuc is not None:
        mc.nuc_energy = nuc
    return mc


def start_event(w, d, mc):
    n = MODES[d["cav"]]
    mf = mc.trial.mf
    m = w.mol(d["mol"], d["frame"])
    S, h, eri = m.intor("int1e_ovlp"), m.intor("int1e_kin") + m.intor("int1e_nuc"), m.intor("int2e")
    na, nb = m.nelec
    ca, cb = mf.mo_coeff[:, :na], mf.mo_coeff[:, :nb]
    da, db = ca @ ca.T, cb @ cb.T
    D, si = da + db, np.linalg.inv(S)
    coul = lambda x, y: np.einsum("pqrs,pq,rs", eri, x, y)
    exch = lambda x: np.einsum("prqs,pq,rs", eri, x, x)
    g = w.gmat(d, n) if n else np.zeros((0,) + S.shape)
    if d["obj"] == "photon":
        g = np.einsum("nx,xuv->nuv", VEC[:n], w.dip(m))
    sc = 1000000
    t = dict(h=num(np.sum(D * h), sc), j=num(coul(D, D), sc), k=num(exch(da) + exch(db), sc),
             s=[num(np.sum(D * (x @ si @ x)), sc) for x in g], mm=[num(np.sum(x * D) ** 2, sc) for x in g],
             x=[num(np.sum((x @ da) * (x @ da).T) + np.sum((x @ db) * (x @ db).T), sc) for x in g])
    e = mc.propagator.local_energy(mc.h1e, mc.ltensor, mc.walkers, mc.trial, enuc=mc.nuc_energy)
    e = list(e) + [0.0] * (6 - len(e))
    psi = mc.trial.boson_psi
    nst = list(getattr(mc.mol, "nboson_states", [])) if n else []
    ph = []
    if n:
        off = np.cumsum([0] + nst)
        ph = [np.asarray(psi)[off[i]:off[i + 1]] for i in range(n)]
    bb = [sum(2 * np.sqrt(k + 1) * (p[k].conjugate() * p[k + 1]).real for k in range(len(p) - 1)) for p in ph]
    wk = mc.walkers
    copies = all(np.allclose(wk.phiwa[i], mc.trial.psia) for i in range(wk.nwalkers)) and \
        (wk.ncomponents == 1 or all(np.allclose(wk.phiwb[i], mc.trial.psib) for i in range(wk.nwalkers))) and \
        (not n or all(np.allclose(wk.boson_phiw[i], psi) for i in range(wk.nwalkers)))
    fresh = np.allclose(wk.weights, 1) and np.allclose(mc.trial.ovlp_with_walkers(wk), 1) and mc.eshift == 0
    return dict(kind="start", d=d, t=t, norm=num(e[1], sc), e=num(e[0] / e[1], sc), e1=num(e[2] / e[1], sc), e2=num(e[3] / e[1], sc),
                eb=num(e[4] / e[1], sc), eg=num(e[5] / e[1], sc), nuc=num(mc.nuc_energy, sc), nucref=num(m.energy_nuc(), sc),
                w=[num(v, 10) for v in FREQ[:n]], p=[[num(abs(v) ** 2, sc) for v in q] for q in ph],
                c=[num(np.sqrt(f / 2) * np.sum(x * D), 10000) for f, x in zip(FREQ, g)], bb=[num(v, 10000) for v in bb],
                scf=num(mf.e_tot, sc) if d["orb"] == "hf" else 0, ncomp=int(wk.ncomponents), nel=[int(wk.nalpha), int(wk.nbeta)], elref=[na, nb],
                shape=[list(np.shape(wk.phiwa)), list(np.shape(wk.phiwb)) if wk.ncomponents > 1 else []], nao=int(m.nao_nr()),
                extra=int(mc.ltensor.shape[0] - mc.nbarefields) if d["ints"] != "func" else 0,
                nf=int(mc.ltensor.shape[0]), copies=bool(copies), fresh=bool(fresh))


def body(chk):
    w = World()
    rng = random.Random(vlib.SEED)
    cases = chk.cases("Setup", tier("Setup.cfg", "SetupDeep.cfg"), timeout=tier(300, 850))
    groups = {}
    for c in cases:
        groups.setdefault(c["run"], {})[repr(sorted(c["d"].items()))] = c
    # every plain description, and for a random choice of runs several ways to describe them
    keys = sorted(groups)
    rng.shuffle(keys)
    # runs with most descriptions first (those have something to compare), the rest for their starting point
    keys.sort(key=lambda k: -min(len(groups[k]), 9))
    picked, budget = [], tier(800, 2400)
    for k in keys:
        g = [groups[k][x] for x in sorted(groups[k])]
        rng.shuffle(g)
        picked += g[:tier(4, 8)]
        if len(picked) >= budget * 3 // 4:
            break
    done = {id(c) for c in picked}
    rest = [groups[k][x] for k in keys for x in sorted(groups[k]) if id(groups[k][x]) not in done]
    rng.shuffle(rest)
    picked += rest[:budget - len(picked)]
    events, runs, starts = [], {}, {}
    for c in picked:
        d = c["d"]
        h = sum(map(ord, c["run"]))
        scheme = "hybrid" if h % 3 else "local"
        oc, mc = outcome(setup, w, d, 7 + h % 50, scheme)
        if oc == "ok":
            oc, ev = outcome(start_event, w, d, mc)
        if oc != "ok":
            events.append(dict(kind="failed", d=d, what=str(mc if mc is None or isinstance(mc, str) else "start")))
            continue
        events.append(ev)
        starts.setdefault(c["start"], []).append((d, ev))
        oc, mc = outcome(setup, w, d, 7 + h % 50, scheme)
        if oc == "ok":
            oc, res = outcome(mc.kernel)
        if oc != "ok":
            events.append(dict(kind="failed", d=d, what="run"))
            continue
        runs.setdefault(c["run"], []).append((d, [num(x, 10000000) for x in res[1]], [num(x, 1000000) for x in np.asarray(mc.walkers.weights).real]))
    for k, v in runs.items():
        for (d1, e1, w1), (d2, e2, w2) in zip(v, v[1:]):
            events.append(dict(kind="run", a=d1, b=d2, ea=e1, eb=e2, wa=w1, wb=w2, n=2))
    for k, v in starts.items():
        for (d1, a), (d2, b) in zip(v, v[1:]):
            pick = lambda e: [e["e1"], e["e2"], e["eb"], e["eg"], e["e"]]
            events.append(dict(kind="same", a=d1, b=d2, ea=pick(a), eb=pick(b), pa=[x for q in a["p"] for x in q], pb=[x for q in b["p"] for x in q]))
    chk.validate("SetupTrace", "SetupTrace.cfg", events)
    chk.assumptions += ["molecules of two to four atoms in a minimal basis, up to two modes with three boson states, four steps of four walkers",
                        "trial orbitals from restricted (open-shell) mean fields; integrals from PySCF are taken as they are"]

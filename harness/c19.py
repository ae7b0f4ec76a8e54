"""C19 - molecular dynamics: output directories over histories of runs, integrators, molecules."""
import json, os, random, shutil, tempfile
import numpy as np
import vlib
from vlib import tier, outcome, proj, proj_list


def _unprivileged():
    """Directories are moved about: do it where nothing else can be reached."""
    try:
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    except OSError:
        pass


def _session(base, style, ntraj, ops, first):
    """One process: start runs and write files; what is there after each."""
    from openms.qmd.bomd import BOMD
    if ntraj:
        kind = type("CT", (BOMD,), {})
        md = kind([], None, ntrajs=ntraj, digit=3)
    else:
        md = BOMD([], None)
    n = ntraj or 1
    root = {"dot": base, "rel": os.path.join(base, "out"), "abs": os.path.join(base, "a", "b"), "home": os.path.join(base, "home")}[style]
    arg = {"dot": "./", "rel": "out", "abs": root, "home": "~"}[style]
    tops = [os.path.join(root, "TRAJ_%03d" % (i + 1)) for i in range(ntraj)] if ntraj else [root]
    res = []
    for k, op in enumerate(ops):
        os.chdir(base)
        ident = 100 * (first + k + 1)
        opt = {"none": None, "other": "again"}.get(op["opt"], op["opt"].upper() if k % 2 else op["opt"])
        oc, out = outcome(md.initialize, None, output_dir=arg, save_qm_log=op["log"], restart=opt)
        ev = {"opt": op["opt"], "log": op["log"], "id": ident, "outcome": oc if oc == "ok" else out, "paths": False, "cwd": False}
        if oc == "ok":
            as_list = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
            same = lambda a, b: len(a) == len(b) and all(os.path.realpath(p) == os.path.realpath(q) for p, q in zip(a, b))
            ev["paths"] = same(as_list(out[0]), tops) and same(as_list(out[1]), [os.path.join(t, "md") for t in tops]) \
                and same(as_list(out[2]), [os.path.join(t, "qm_log") for t in tops])
            ev["cwd"] = os.path.realpath(os.getcwd()) == os.path.realpath(tops[0])
            for i, t in enumerate(tops):
                for d, j in (("md", 0), ("qm_log", 1)):
                    if os.path.isdir(os.path.join(t, d)):
                        with open(os.path.join(t, d, "f%d" % (ident + 2 * (i + 1) + j)), "w") as f:
                            f.write(str(ident + 2 * (i + 1) + j))
        ev["trajs"] = []
        for t in tops:
            r = {"md": os.path.isdir(os.path.join(t, "md")), "qm": os.path.isdir(os.path.join(t, "qm_log")), "mdfiles": [], "qmfiles": [], "all": []}
            for d, key in (("md", "mdfiles"), ("qm_log", "qmfiles")):
                if os.path.isdir(os.path.join(t, d)):
                    for nm in os.listdir(os.path.join(t, d)):
                        r[key].append(int(nm[1:]) if nm[1:].isdigit() else 0)
            for d, _, fs in os.walk(t):
                for nm in fs:
                    txt = open(os.path.join(d, nm)).read()
                    r["all"].append(int(txt) if nm[1:] == txt else 0)
            ev["trajs"].append(r)
        res.append(ev)
    return res


def directories(rng, hist, run):
    ntraj = rng.choice([0, 0, 1, 2])
    style = rng.choice(["dot", "rel", "rel", "abs", "home"])
    base = tempfile.mkdtemp(prefix="md_")
    try:
        os.chmod(base, 0o777)
        cuts = sorted(rng.sample(range(1, len(hist)), rng.choice([0, 0, 1, 2]))) if len(hist) > 2 else []
        parts = [hist[a:b] for a, b in zip([0] + cuts, cuts + [len(hist)])]
        events, first = [], 0
        for part in parts:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    _unprivileged()
                    os.environ["HOME"] = os.path.join(base, "home")
                    out = json.dumps(_session(base, style, ntraj, part, first))
                    with os.fdopen(w, "w") as f:
                        f.write(out)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r) as f:
                txt = f.read()
            os.waitpid(pid, 0)
            events += json.loads(txt) if txt else [{"opt": part[0]["opt"], "log": part[0]["log"], "id": 0, "outcome": "the process died", "trajs": [{"md": False, "qm": False, "mdfiles": [], "qmfiles": [], "all": []}] * (ntraj or 1), "paths": False, "cwd": False}]
            first += len(part)
        return {"run": run, "init": {"kind": "dirs", "ntraj": ntraj or 1, "style": style, "sessions": [len(p) for p in parts]}, "events": events}
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def molecule(rng, natm, **kw):
    from openms.lib.misc import Molecule
    syms = [rng.choice(["H", "H", "He", "Li"]) for _ in range(natm)]
    xyz = [[3 * i + rng.randint(0, 1), rng.randint(-1, 1), rng.randint(-1, 1)] for i in range(natm)]
    ne = sum({"H": 1, "He": 2, "Li": 3}[s] for s in syms)
    with vlib.quiet():
        m = Molecule(atom=[(s, tuple(map(float, x))) for s, x in zip(syms, xyz)], basis="sto-3g", unit="Bohr", spin=ne % 2, verbose=0, **kw)
    return m, syms, xyz


def ints(a):
    return proj_list(a, 1, 1e-6)


def moves(rng, run):
    from openms.qmd.bomd import BOMD
    nm, nst, h = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, -1])
    mols, acc, ms = [], [], []
    for _ in range(nm):
        m, syms, xyz = molecule(rng, rng.choice([1, 2, 3]), nstates=nst)
        n = len(syms)
        arr = lambda lo, hi, shape: np.array([rng.randint(lo, hi) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
        m.coords, m.veloc, m.mass = arr(-5, 5, (n, 3)), arr(-3, 3, (n, 3)), arr(1, 4, (n,))
        a = [arr(-3, 3, (n, 3)) for _ in range(nst)]
        for s in range(nst):
            m.states[s].forces = a[s] * m.mass[:, None]
        mols.append(m)
        acc.append([ints(x) for x in a])
        ms.append(ints(m.mass))
    md = BOMD(mols, None, dt=2.0 * h)
    init = {"kind": "move", "h": h, "m": ms, "acc": acc, "x": [ints(m.coords) for m in mols], "v": [ints(m.veloc) for m in mols]}
    events = []
    for k in range(rng.choice([4, 8])):
        op = rng.choice(["velocity", "position", "velocity", "position", "kinetic", "temperature"])
        st = rng.randint(1, nst)
        keep = [(np.array(m.mass), [np.array(s.forces) for s in m.states]) for m in mols]
        ev = {"op": op, "state": st, "kin": [], "temp": 0}
        if op == "velocity":
            oc, out = outcome(md.next_velocity_many_molecule, st - 1) if st > 1 or k % 2 else outcome(md.next_velocity_many_molecule)
        elif op == "position":
            oc, out = outcome(md.next_position)
        elif op == "kinetic":
            oc, out = outcome(lambda: [m.get_ekin() for m in mols])
            ev["kin"] = [proj(m.ekin, 2) for m in mols]
        else:
            oc, out = outcome(md.temperature_many_molecule)
            from openms.lib.misc import au2K
            ev["temp"] = proj(out / au2K, sum(m.ndof for m in mols), 1e-6) if oc == "ok" else 0
        ev["outcome"] = oc if oc == "ok" else "raise " + str(out)
        ev["x"], ev["v"] = [ints(m.coords) for m in mols], [ints(m.veloc) for m in mols]
        ev["rest"] = all(np.array_equal(m.mass, a) and all(np.array_equal(s.forces, f) for s, f in zip(m.states, fs)) for m, (a, fs) in zip(mols, keep))
        events.append(ev)
    return {"run": run, "init": init, "events": events}


def single(kind, ev, run):
    return {"run": run, "init": {"kind": kind}, "events": [ev]}


def rk(rng, run):
    from openms.qmd.propagator import rk4
    n = rng.choice([1, 1, 2, 3])
    c = [[rng.randint(-2, 2) for _ in range(6)] for _ in range(n)]
    y0 = [rng.randint(-4, 4) for _ in range(n)]
    t, h = rng.randint(-3, 3), rng.choice([1, 2, -1])
    C = np.array(c, dtype=float)
    scalar = n == 1 and rng.random() < 0.5
    row = [float(x) for x in c[0]] if scalar else [C[:, i] for i in range(6)]
    f = lambda s, y: row[0] + row[1] * s + row[2] * s * s + row[3] * y + row[4] * s * y + row[5] * s ** 3
    start = float(y0[0]) if scalar else np.array(y0, dtype=rng.choice([float, complex]))
    keep = np.array(start, copy=True)
    oc, out = outcome(rk4, f, float(t), start, 2.0 * h)
    ev = {"outcome": oc if oc == "ok" else "raise " + str(out), "c": c, "y0": y0, "t": t, "h": h, "inc": [], "kept": bool(np.array_equal(keep, start))}
    if oc == "ok":
        ev["inc"] = proj_list((np.atleast_1d(out) - np.array(y0)), 3)
    return single("rk", ev, run)


def built(rng, run):
    n, ns, nd = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([3, 3, 1])
    given = rng.random() < 0.6
    v = [[rng.randint(-4, 4) for _ in range(nd)] for _ in range(n)] if given else [[0] * nd for _ in range(n)]
    kw = dict(nstates=ns, ndim=nd)
    if given:
        kw["veloc"] = np.array(v, dtype=float)
    try:
        m, syms, xyz = molecule(rng, n, **kw)
    except Exception as e:  # noqa
        return single("molecule", {"outcome": "raise " + type(e).__name__}, run)
    from pyscf.data import elements, nist
    iso = [elements.COMMON_ISOTOPE_MASSES[{"H": 1, "He": 2, "Li": 3}[s]] * nist.AMU2AU for s in syms]
    zero = all(not np.any(np.asarray(a)) for a in (m.nac, m.nacme, m.rho, m.nac_old, m.nacme_old)) and np.shape(m.nac) == (ns, ns, n, nd) \
        and np.shape(m.nacme) == (ns, ns) and m.ekin == 0 and all(s.energy == 0 for s in m.states)
    return single("molecule", {"outcome": "ok", "v": ints(m.veloc), "veloc": v, "x": ints(m.coords), "coords": xyz, "nstates": len(m.states),
                               "want": ns, "ndof": int(m.ndof), "ndim": nd, "zero": bool(zero), "isotopes": bool(np.allclose(m.mass, iso, rtol=1e-9))}, run)


def reset(rng, run):
    m, _, _ = molecule(rng, 2, nstates=2)
    m.nac, m.nacme = np.ones_like(m.nac), np.ones_like(m.nacme)
    m.lnacme = rng.random() < 0.5
    calc = rng.random() < 0.7
    oc, out = outcome(m.reset_bo, calc)
    z = lambda a, s: bool(np.shape(a) == s and not np.any(a))
    return single("reset", {"outcome": oc if oc == "ok" else "raise " + str(out), "calc": calc, "lnacme": bool(m.lnacme),
                            "nacme0": z(m.nacme, (2, 2)), "nac0": z(m.nac, (2, 2, 2, 3))}, run)


def final(rng, run):
    from openms.qmd.bomd import BOMD
    from openms.lib.misc import au2A
    n = rng.choice([1, 2, 3])
    m, syms, xyz = molecule(rng, n)
    x = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)]
    v = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)]
    m.coords, m.veloc = np.array(x, dtype=float), np.array(v, dtype=float)
    md = BOMD(m, None)
    d = tempfile.mkdtemp(prefix="md_")
    ev = {"x": x, "v": v, "wantsym": syms, "natm": -1, "symbols": [], "fx": [], "fv": []}
    try:
        oc, out = outcome(md.write_final_xyz, d, 6)
        ev["outcome"] = oc if oc == "ok" else "raise " + str(out)
        if oc == "ok":
            rows = [r.split() for r in open(os.path.join(d, "FINAL.xyz")).read().splitlines()]
            body = rows[2:]
            ev.update(natm=int(rows[0][0]), symbols=[r[0] for r in body], fx=[[proj(float(t) / au2A, 1, 1e-6) for t in r[1:4]] for r in body],
                      fv=[[proj(float(t), 1, 1e-6) for t in r[4:7]] for r in body])
    except Exception as e:  # noqa
        ev["outcome"] = "unreadable " + type(e).__name__
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return single("xyz", ev, run)


def body(chk):
    rng = random.Random(vlib.SEED * 23 + 19)
    hists = [c["hist"] for c in chk.cases("Md", "Md.cfg")]
    if tier(0, 1):
        chk.model("Md", "MdDeep.cfg")
    chk.model("MdInt", tier("MdInt.cfg", "MdIntDeep.cfg"))
    import openms.qmd.bomd, openms.qmd.propagator  # noqa: imported before privileges are dropped
    with vlib.quiet():
        molecule(rng, 1)
    rng.shuffle(hists)
    runs = []
    for h in hists[:tier(250, 2500)]:
        runs.append(directories(rng, h, len(runs)))
    for _ in range(tier(40, 400)):     # longer histories, mostly fresh starts
        h = [{"opt": rng.choice(["none", "write", "none", "append", "other"]), "log": rng.random() < 0.5} for _ in range(rng.choice([8, 12]))]
        runs.append(directories(rng, h, len(runs)))
    for fn, q, t in ((moves, 80, 800), (rk, 150, 1500), (built, 40, 200), (reset, 12, 60), (final, 15, 100)):
        for _ in range(tier(q, t)):
            runs.append(fn(rng, len(runs)))
    chk.validate("MdTrace", "MdTrace.cfg", runs)
    chk.assumptions = ["directories are exercised in forked processes of an unprivileged user, inside a scratch directory",
                       "masses, forces, positions, velocities and steps are integers"]

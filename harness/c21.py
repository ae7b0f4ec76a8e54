"""C21 - shared building blocks: trial states, tensors, factors, line shapes, array backend."""
import itertools, math, random
import numpy as np
import vlib
from vlib import tier, outcome, proj, proj_list, NOTINT


def gi(a, scale=1, tol=1e-7):
    """complex array -> nested lists of Gaussian integers"""
    a = np.asarray(a)
    if a.ndim == 0:
        return [proj(a.real, scale, tol), proj(a.imag, scale, tol)]
    return [gi(x, scale, tol) for x in a]


def cm(rows):
    return np.array([[complex(*v) for v in r] for r in rows])


def real_if(rng, a):
    return a.real.copy() if np.isrealobj(a) or (np.all(a.imag == 0) and rng.random() < .5) else a


def body(chk):
    cases = chk.cases("Block", tier("Block.cfg", "BlockDeep.cfg"), timeout=850 if vlib.THOROUGH else 500)
    rng = random.Random(vlib.SEED * 307 + 21)
    by = {}
    for c in cases:
        by.setdefault(c["t"], []).append(c)
    pick = lambda t, n: rng.sample(by[t], min(n, len(by[t])))
    ev = []

    def add(e, fn, **refusal):
        with vlib.quiet():
            oc, r = outcome(fn)
        if oc == "ok":
            ev.append(dict(e, **r))
        elif refusal:
            ev.append(dict(e, **dict(refusal, outcome=str(r).split(":")[0].strip("'\"( "))))
        else:
            ev.append({"kind": "failed", "what": e["kind"], "error": str(r)[:200], "input": {k: v for k, v in e.items() if k != "kind"}})

    trials(rng, pick, add)
    tensors(rng, pick, add)
    factors(rng, pick, add)
    orbitals(rng, pick, add)
    guesses(rng, add)
    shapes(rng, add)
    backends(rng, pick, add)
    chk.validate("BlockTrace", "BlockTrace.cfg", ev, timeout=800)
    chk.assumptions += ["integer inputs; smooth functions are compared through their integer logarithms and ratios",
                        "torch, cupy and TiledArray backends are not installed: only their refusal is observed"]


# ---------------------------------------------------------------- trial states
def trials(rng, pick, add):
    from openms.qmc import trial_boson as tb
    cases = pick("osc", tier(400, 4000))
    for _ in range(tier(100, 1500)):
        n = rng.choice([1, 2, 3, 5, 8])
        x = [rng.randint(-4, 4) for _ in range(n)]
        s = [rng.randint(-3, 3)] * n if rng.random() < .5 else [rng.randint(-3, 3) for _ in range(n)]
        cases.append({"rep": rng.choice("QP"), "m": rng.randint(1, 3), "w": rng.randint(1, 3), "x": x, "s": s})
    for c in cases:
        rep, m, w, mw, x, s = c["rep"], c["m"], c["w"], c["m"] * c["w"], c["x"], c["s"]

        def osc():
            X = np.array(x, dtype=rng.choice([float, float, int]))
            keep = X.copy()
            same = len(set(s)) == 1
            S = float(s[0]) if same and rng.random() < .5 else np.array(s, dtype=float)
            late = rep == "Q" and isinstance(S, np.ndarray) and rng.random() < .6
            kw = dict(mass=float(m), freq=float(w))
            if m == 1 and rng.random() < .3:
                kw.pop("mass")
            if w == 1 and rng.random() < .3:
                kw.pop("freq")
            t = (tb.TrialQ if rep == "Q" else tb.TrialP)(**kw, **({} if late else {"qshift" if rep == "Q" else "pshift": S}))
            if late:
                t.update_Q_shift(S)
                S += 17
            k = 1 if rep == "Q" else mw
            val = (t.qvalue if rep == "Q" else t.pvalue)(X)
            scale = 1. if rep == "Q" else float(mw)
            # far tails underflow: compare only where the value is a normal number
            expo = sum((a - b) ** 2 for a, b in zip(x, s)) * (mw if rep == "Q" else 1. / mw) / 2
            lv = 2 * scale * math.log(val) if expo < 650 else -2 * scale * expo
            return {"grad": proj_list(t.gradient(X), k), "lap": proj_list(t.laplacian(X), k * k), "en": proj(t.local_energy(X), 2 if rep == "Q" else 2 * m),
                    "lv": proj(lv, 1, 1e-6), "kept": bool(np.array_equal(X, keep))}
        add({"kind": "osc", "rep": rep, "m": m, "w": w, "x": x, "s": s}, osc)
    coh = [(c["al"], c["nf"]) for c in pick("coh", tier(80, 600))]
    for _ in range(tier(20, 200)):
        nm = rng.choice([1, 2, 3])
        coh.append(([[rng.randint(-2, 2), rng.choice([0, 0, 1, -1])] for _ in range(nm)], rng.randint(1, {1: 7, 2: 4, 3: 3}[nm])))
    for al, nf in coh:
        def state():
            a = np.array([complex(*z) for z in al])
            if np.all(a.imag == 0) and rng.random() < .7:
                a = a.real
            keep = a.copy()
            t = tb.TrivialFock(len(al), nf)
            t.build(alpha=a)
            f = np.array([math.sqrt(math.prod(math.factorial(k) for k in n)) for n in itertools.product(range(nf), repeat=len(al))])
            u = np.asarray(t.boson_psi) * f * math.exp(sum(abs(complex(*z)) ** 2 for z in al) / 2)
            k = rng.randrange(nf)
            one = tb.coherent_state_coeff(k, a[0]) * math.sqrt(math.factorial(k)) * math.exp(abs(a[0]) ** 2 / 2)
            good = abs(one - complex(*al[0]) ** k) < 1e-9 * max(1, abs(one)) and np.array_equal(a, keep)
            return {"amp": gi(u), "one": int(good)}
        add({"kind": "coh", "al": al, "nf": nf}, state)
    for nf, nm in ((1, 1), (4, 1), (3, 2), (2, 3), (3, 3)):
        def plain():
            t = tb.TrivialFock(nm, nf)
            t.build()
            return {"n": [proj(-math.log(v)) for v in t.boson_psi]}
        add({"kind": "fock", "nf": nf, "nm": nm}, plain)


# ---------------------------------------------------------------- tensors
def tensors(rng, pick, add):
    from openms.spindy import spin
    three = lambda t: proj_list(np.asarray(t, dtype=float), 3)
    num = lambda v: rng.choice([int, float, np.float64, lambda q: np.array(float(q))])(v)

    def tensor(iso=False):
        if iso:
            g = rng.randint(-4, 4)
            return [[g if i == j else 0 for j in range(3)] for i in range(3)]
        k = rng.choice(["any", "diag", "one off"])
        if k == "diag":
            v = [rng.randint(-3, 3) for _ in range(3)]
            return [[v[i] if i == j else 0 for j in range(3)] for i in range(3)]
        if k == "one off":
            t = [[2 if i == j else 0 for j in range(3)] for i in range(3)]
            t[rng.randrange(3)][rng.randrange(3)] += rng.choice([0, 1, -1])
            return t
        return [[rng.randint(-3, 3) for _ in range(3)] for _ in range(3)]

    for c in pick("zfs", tier(25, 81)):
        D, E = c["D"], c["E"]
        add({"kind": "zfs", "form": "numbers", "D": D, "E": E},
            lambda: {"got": three(spin.zfs_tensor(num(D), float(E)) if E or rng.random() < .5 else spin.zfs_tensor(num(D)))})

        def full():
            twos = rng.randint(1, 5)
            form = rng.choice(["number", "vector", "tensor", "tensor"])
            g = rng.randint(-4, 4) if form == "number" else [rng.randint(-4, 4) for _ in range(3)] if form == "vector" else tensor(rng.random() < .3)
            kw = {"gfactor": num(g) if form == "number" else np.array(g, dtype=float)}
            s = spin.Spin(D=float(D), E=float(E), spin=twos / 2, **kw) if rng.random() < .5 else spin.Spin(D=float(D), E=float(E), spin=twos / 2)
            if s.gfactor is spin.ELEC_GFAC:
                s.set_gfactor(kw["gfactor"])
            return {"twos": twos, "dim": s.ndim, "zfs": three(s._zfs), "de": [proj(s.D), proj(s.E)], "form": form, "gin": g,
                    "g": proj_list(np.asarray(s._gfactor, dtype=float))}
        add({"kind": "spin", "D": D, "E": E}, full)
    for _ in range(tier(15, 100)):
        t = tensor()
        add({"kind": "zfs", "form": "tensor", "t3": [[3 * v for v in r] for r in t]}, lambda: {"got": three(spin.zfs_tensor(np.array(t, dtype=float)))})
    for _ in range(tier(60, 600)):
        n = rng.choice([1, 1, 2, 3, 4])
        k = rng.random()
        ts = [tensor(k < .5 or (k < .8 and i != n - 1)) for i in range(n)]

        def gf():
            a = np.array(ts, dtype=float)
            if n == 1 and rng.random() < .7:
                a = a[0]
                g, ok = spin.check_gfactor(a)
                return {"scalar": bool(ok), "got": [proj(g)] if bool(ok) else [proj_list(g)]}
            if n == 1:                       # a stack of one tensor is not distinguishable from a number array
                a = np.array(ts * 2, dtype=float)
                g, ok = spin.check_gfactor(a)
                return {"ts": ts * 2, "scalar": bool(ok), "got": proj_list(g)}
            g, ok = spin.check_gfactor(a)
            return {"scalar": bool(ok), "got": proj_list(g)}
        add({"kind": "gf", "ts": ts}, gf)


# ---------------------------------------------------------------- factors and transformations
def factors(rng, pick, add):
    from openms.lib import mathlib
    from openms.mqed import scqedhf
    vs = [c["v"] for c in pick("chol", tier(120, 1500))]
    for _ in range(tier(60, 800)):
        n, r = rng.randint(1, 4), rng.randint(0, 3)
        vs.append([[rng.randint(-2, 2) for _ in range(r)] for _ in range(n)])
    for v in vs:
        n = len(v)
        s = [[sum(a * b for a, b in zip(v[i], v[j])) for j in range(n)] for i in range(n)]

        def orth():
            S = np.array(s, dtype=float)
            keep = S.copy()
            L, P = mathlib.full_cholesky_orth(S) if rng.random() < .5 else mathlib.full_cholesky_orth(S, threshold=1e-7)
            p = [int(np.argmax(P[:, i])) + 1 if sorted(P[:, i])[-1] == 1 and np.count_nonzero(P[:, i]) == 1 else NOTINT for i in range(P.shape[1])]
            X = P @ np.linalg.inv(L).T
            return {"outcome": "ok", "rank": int(L.shape[0]), "p": p, "lower": bool(np.all(np.triu(L, 1) == 0) and np.all(np.diag(L) > 0)),
                    "llt": proj_list(L @ L.T), "orth": proj_list(X.T @ keep @ X, 1, 1e-6), "kept": bool(np.array_equal(S, keep))}
        add({"kind": "chol", "s": s}, orth, rank=0)
        if all(any(r) for r in s):
            def full():
                S = np.array(s, dtype=float)
                keep = S.copy()
                L, piv, r = mathlib.full_cholesky_decomposition(S, 1e-7)
                L, p = L[:r, :r], [int(q) for q in piv[:r]]
                X = np.zeros((n, r))
                X[[q - 1 for q in p], :] = np.linalg.inv(L).T
                return {"outcome": "ok", "rank": int(r), "p": p, "lower": bool(np.all(np.triu(L, 1) == 0)), "llt": proj_list(L @ L.T),
                        "orth": proj_list(X.T @ keep @ X, 1, 1e-6), "kept": bool(np.array_equal(S, keep))}
            add({"kind": "chol", "s": s}, full, rank=0)
    for _ in range(tier(40, 300)):
        n = rng.randint(1, 6)
        exps = [0] + [rng.randint(0, 9) for _ in range(n - 1)]
        rng.shuffle(exps)
        t = rng.randint(1, 10)
        # entries 3*10^-e against a threshold of 10^-t
        add({"kind": "thresh", "exps": exps, "t": t + 1},
            lambda: {"rank": int(mathlib.full_cholesky_orth(np.diag([3. * 10. ** -e for e in exps]), threshold=10. ** -t)[0].shape[0])})
    # transformations
    uni = [(c["u"], c["a"]) for c in pick("uni", tier(120, 1500))]
    for _ in range(tier(60, 600)):
        n, k = rng.randint(1, 4), rng.randint(1, 4)
        im = rng.choice([0, 1])
        z = lambda: [rng.randint(-2, 2), rng.randint(-2, 2) * im]
        uni.append(([[z() for _ in range(k)] for _ in range(n)], [[z() for _ in range(n)] for _ in range(n)]))
    for u, a in uni:
        def tr():
            U, A = real_if(rng, cm(u)), real_if(rng, cm(a))
            ku, ka = U.copy(), A.copy()
            f = rng.choice([mathlib.unitary_transform, scqedhf.unitary_transform] if np.isrealobj(U) else [mathlib.unitary_transform])
            r = f(U, A)
            return {"got": gi(r), "kept": bool(np.array_equal(U, ku) and np.array_equal(A, ka))}
        add({"kind": "uni", "u": u, "a": a}, tr)


# ---------------------------------------------------------------- orbitals
def orbitals(rng, pick, add):
    from openms.qmc import trial, propagators
    for c in pick("sign", tier(200, 2000)):
        ref, tgt = c["ref"], c["tgt"]

        def sign():
            f = [o for o in tgt if o not in ref]
            t = [o for o in ref if o not in tgt]
            arr = rng.choice([np.array, list])
            return {"got": proj(trial.permutation_sign(arr(f), arr(t), np.array(ref), np.array(tgt)))}
        add({"kind": "sign", "ref": ref, "tgt": tgt}, sign)
    z = lambda k: [rng.randint(-k, k), rng.randint(-k, k)]
    for _ in range(tier(40, 400)):
        n, m, nw = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
        a = [[z(3) for _ in range(n)] for _ in range(n)]
        phi = [[[z(3) for _ in range(m)] for _ in range(n)] for _ in range(nw)]
        add({"kind": "prop", "a": a, "phi": phi},
            lambda: {"got": gi(propagators.propagate_onebody(real_if(rng, cm(a)), np.array([cm(p) for p in phi])))})
    exps = [([c["a"], c["a"]], [c["v"], c["v"]], c["K"]) for c in pick("exp", tier(60, 800))]
    for _ in range(tier(50, 500)):
        n, m, nw = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        exps.append(([[[z(1) for _ in range(n)] for _ in range(n)] for _ in range(nw)], [[[z(2) for _ in range(m)] for _ in range(n)] for _ in range(nw)], rng.randint(0, 6)))
    for as_, phi, K in exps:
        add({"kind": "exp", "as": as_, "phi": phi, "K": K},
            lambda: {"got": gi(propagators.propagate_exp_op(np.array([cm(p) for p in phi]), np.array([cm(a) for a in as_]), K), math.factorial(K))})


# ---------------------------------------------------------------- the guess a mean field makes of them
def guesses(rng, add):
    from pyscf import gto
    from openms.mqed import qedhf, scqedhf, vtqedhf
    for _ in range(tier(9, 60)):
        n = rng.choice([2, 4, 4])
        atoms = [("H", (rng.uniform(-.5, .5), rng.uniform(-.5, .5), 1.6 * i)) for i in range(n)]
        if rng.random() < .3:
            atoms[-1] = ("H", tuple(v + (3e-3 if k == 2 else 0) for k, v in enumerate(atoms[-2][1])))
        basis = rng.choice(["sto-3g", "6-31g"])
        for mod in (qedhf, scqedhf, vtqedhf):
            g = rng.choice(["1e", "hcore"])

            def guess():
                m = gto.M(atom=atoms, basis=basis, unit="Bohr", verbose=0)
                mf = mod.RHF(m, cavity_mode=np.array([[.05, .02, .1]]), cavity_freq=np.array([.5]))
                S = m.intor("int1e_ovlp")
                D = np.asarray(mf.get_init_guess(m, g) if rng.random() < .5 else mf.init_guess_by_1e(m))
                return {"el": proj(np.trace(D @ S), 1, 1e-6), "idem": proj(np.trace(D @ S @ D @ S), 1, 1e-6), "sym": bool(np.allclose(D, D.T, atol=1e-9))}
            add({"kind": "guess", "n": n, "what": mod.__name__}, guess)


# ---------------------------------------------------------------- line shapes
def shapes(rng, add):
    from openms.lib import misc
    for _ in range(tier(80, 800)):
        which = rng.choice(["lorentz", "gauss"])
        c, sg, x0 = rng.randint(1, 9), rng.choice([1, 1, 2, 3, -1, -2]), rng.randint(-5, 5)
        x = [x0 + rng.randint(-5, 5) for _ in range(rng.randint(1, 6))]

        def shape():
            f = misc.Lorentz1d if which == "lorentz" else misc.gaussian1d
            arr = rng.random() < .5
            y = f(np.array(x, dtype=float), float(c), float(sg), float(x0)) if arr else [f(float(v), float(c), float(sg), float(x0)) for v in x]
            y = np.broadcast_to(np.asarray(y, dtype=float), (len(x),))
            if sg < 0:
                return {"got": proj_list(y)}
            if which == "lorentz":
                return {"got": [proj(v * ((q - x0) ** 2 + sg * sg)) for v, q in zip(y, x)]}
            top = float(f(float(x0), float(c), float(sg), float(x0)))
            return {"got": [proj(2 * sg * sg * math.log(v / top)) for v in y], "top": proj(top * sg * math.sqrt(2 * math.pi))}
        add({"kind": "shape", "which": which, "c": c, "sigma": sg, "x0": x0, "x": x}, shape)


# ---------------------------------------------------------------- array backend
def backends(rng, pick, add):
    from openms.lib import backend as mod
    if not hasattr(mod, "set_backend"):
        import importlib
        mod = importlib.import_module("openms.lib.backend")
    be = mod.backend
    names = ["numpy", "numpy.float16", "numpy.float32", "numpy.float64", "numpy.cuda", "numpy.cuda.float32", "torch", "TiledArray", "fortran", "numpy.float32"]
    skip = {n for n, flag in (("torch", "TORCH_AVAILABLE"), ("TiledArray", "TA_AVAILABLE")) if getattr(mod, flag, False)}
    hists = [c["hist"] for c in pick("be", tier(120, 1000))]
    for _ in range(tier(30, 300)):
        hists.append([rng.choice(names) for _ in range(rng.randint(4, 9))])
    for hist in hists:
        if skip & set(hist):
            continue

        def run():
            mod.set_backend("numpy")
            oks, floats, rest = [], [], True
            try:
                for n in hist:
                    oc, _ = outcome(mod.set_backend, n)
                    oks.append(oc == "ok")
                    v = [1.5, -2.0, 0.25]
                    made = [be.array(v), be.asarray(np.array(v, dtype=rng.choice([np.float32, np.float64, np.float16]))), be.numpy(v), be.ones((2, 2)), be.zeros(3),
                            be.linspace(0., 1., 5), be.arange(0., 3., .5)]
                    ts = {str(np.asarray(a).dtype) for a in made}
                    floats.append(ts.pop() if len(ts) == 1 else "mixed")
                    rest = rest and all([float(p) for p in a] == v for a in made[:3]) and float(be.sum(made[3])) == 4 and not be.sum(made[4]) \
                        and [float(p) for p in made[5]] == [0, .25, .5, .75, 1] and be.array([1, 2]).dtype.kind == "i" and be.array([1j]).dtype.kind == "c" \
                        and be.is_array(made[0]) and not be.is_array(v) and np.array_equal(be.bmm(np.arange(4.).reshape(1, 2, 2), np.eye(2)[None]), np.arange(4.).reshape(1, 2, 2))
            finally:
                mod.set_backend("numpy")
            return {"oks": oks, "floats": floats, "rest": bool(rest)}
        add({"kind": "be", "hist": hist}, run)

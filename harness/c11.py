"""C11 - the QED coupled-cluster equations are the projected Schroedinger equation."""
import itertools, random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list


def antisym(x, k=0):
    x = x - np.swapaxes(x, k, k + 1)
    return x - np.swapaxes(x, k + 2, k + 3)


def system(rs, shape, on):
    no, nv, nm, nf1, nf2 = (shape[k] for k in ("no", "nv", "nm", "nf1", "nf2"))
    n = no + nv
    r = lambda *s: rs.choice([-1, 1, 2], size=s)
    part = lambda name, x: x if name in on else x * 0
    f = r(n, n)
    i = antisym(rs.randint(-1, 2, size=(n,) * 4))
    g = r(nm, n, n)
    two = lambda x: x + np.swapaxes(x, 0, 1)
    dbl = lambda *s: antisym(rs.randint(-1, 2, size=s + (nv, nv, no, no)), len(s))
    return {"no": no, "nv": nv, "nm": nm, "nf1": nf1, "nf2": nf2, "f": part("f", np.tril(f) + np.tril(f, -1).T), "i": part("i", i + i.transpose(2, 3, 0, 1)),
            "g": part("g", np.tril(g) + np.swapaxes(np.tril(g, -1), 1, 2)), "w": rs.randint(1, 4, size=nm), "t1": part("t1", r(nv, no)), "t2": part("t2", dbl()),
            "s": [part("s", x) for x in (r(nm), two(r(nm, nm)))[:nf1]], "u1": [part("u1", x) for x in (r(nm, nv, no), two(r(nm, nm, nv, no)))[:nf2]],
            "u2": [part("u2", x) for x in (dbl(nm), two(dbl(nm, nm)))[:nf2]]}


def body(chk):
    cases = chk.cases("CC", tier("CC.cfg", "CCDeep.cfg"), timeout=800)
    from openms.mqed import myqedcc_equations_opt as mo, myqedcc_equations as mm, qedcc_equations as qq
    from openms.lib.ov_blocks import one_e_blocks, make_two_e_blocks, make_two_e_blocks_full
    rng = random.Random(vlib.SEED * 111 + 11)
    rs = np.random.RandomState(vlib.SEED * 53 + 11)
    every = ["f", "i", "g", "t1", "t2", "s", "u1", "u2"]
    sh = lambda *a: dict(zip(("no", "nv", "nm", "nf1", "nf2"), a))
    full = [sh(3, 3, 1, 1, 1), sh(3, 3, 1, 2, 2), sh(3, 2, 2, 2, 1), sh(2, 3, 1, 1, 2), sh(2, 3, 2, 1, 1)]
    if tier(0, 1):
        full = full * 4 + [sh(2, 4, 1, 2, 2), sh(4, 2, 1, 2, 2), sh(4, 3, 1, 1, 1), sh(3, 4, 1, 1, 1), sh(2, 2, 3, 2, 1), sh(3, 3, 2, 2, 1), sh(4, 4, 1, 1, 1), sh(2, 2, 1, 1, 2)]
    cases = sorted(cases, key=lambda c: (sorted(c["on"]), sorted(c["shape"].items())))
    todo = [(s, every) for s in full] + [(c["shape"], c["on"]) for c in rng.sample(cases, min(len(cases), tier(12, 400)))]
    ev = []
    for k, (shape, on) in enumerate(todo):
        y = system(rs, shape, on)
        no, nv, nm, nf1, nf2 = (y[x] for x in ("no", "nv", "nm", "nf1", "nf2"))
        fl = lambda x: np.array(x, dtype=float)
        names = ["t1", "t2"] + ["s%d" % (j + 1) for j in range(nf1)] + ["u1%d" % (j + 1) for j in range(nf2)] + ["u2%d" % (j + 1) for j in range(nf2)]

        def data(mod, u2=True):
            F = one_e_blocks(*(fl(y["f"])[a][:, b].copy() for a in (slice(0, no), slice(no, None)) for b in (slice(0, no), slice(no, None))))
            g = one_e_blocks(*(fl(y["g"])[:, a][:, :, b].copy() for a in (slice(0, no), slice(no, None)) for b in (slice(0, no), slice(no, None))))
            I = (make_two_e_blocks if mod is mo else make_two_e_blocks_full)(fl(y["i"]), *([no, nv] * 4))
            return [F, I, fl(y["w"]), g, g, np.zeros(nm), np.zeros(nm), nf1, nf2,
                    (fl(y["t1"]), fl(y["t2"]), [fl(x) for x in y["s"]], [fl(x) for x in y["u1"]], [fl(x) for x in y["u2"]] if u2 else [None] * nf2)]

        def flat(a):
            return [np.array(x, copy=True) for x in [getattr(a[0], b) for b in ("oo", "ov", "vo", "vv")] + [getattr(a[3], b) for b in ("oo", "ov", "vo", "vv")] + [v for v in vars(a[1]).values() if v is not None]
                    + [a[2], a[9][0], a[9][1]] + a[9][2] + a[9][3] + [x for x in a[9][4] if x is not None]]

        def name(parts, r):
            res = {}
            for p, x in zip(parts, r):
                if p in ("t1", "t2"):
                    res[p] = proj_list(x)
                else:
                    for j, z in enumerate(x or []):
                        if z is not None:
                            res["%s%d" % (p, j + 1)] = proj_list(z)
            return res

        for mod, u2 in ((mo, True), (mm, True), (qq, True), (mo, False)):
            if not u2 and k % 3:
                continue

            def run():
                a = data(mod, u2)
                before = flat(a)
                r = (mod.qedccsd_sn_u2n if mod is qq else mod.new_qedccsd_sn_u2n)(*a)
                return name(("t1", "t2", "s", "u1", "u2"), r), all(np.array_equal(x, z) for x, z in zip(before, flat(a)))
            oc, out = outcome(run)
            yy = dict(y, u2=[x * 0 for x in y["u2"]]) if not u2 else y
            ev.append({"op": "residual", "entry": mod.__name__, "doubles": u2, "on": sorted(on), "oc": oc if oc == "ok" else "raise " + str(out), "y": {a: (b.tolist() if hasattr(b, "tolist") else [c.tolist() for c in b] if isinstance(b, list) else b) for a, b in yy.items()},
                       "r": out[0] if oc == "ok" else {}, "kept": bool(out[1]) if oc == "ok" else True, "want": names if u2 else [x for x in names if not x.startswith("u2")]})
        # the equations written out without intermediates
        if nf2 == 1 and (k < len(full) or k % 4 == 0):
            for mod in (mo, mm):
                def run():
                    a = data(None)
                    im = mod.Imds(*a)
                    im.build(*a)
                    return name(("t1", "t2", "u1", "u2"), (mod.qedccsd_T1(*a, im), mod.qedccsd_T2(*a, im), mod.qedccsd_U1n(*a, im), mod.qedccsd_U2n(*a, im)))
                oc, out = outcome(run)
                e = dict(ev[-1] if ev[-1]["doubles"] else ev[-2], entry=mod.__name__ + " (written out)", oc=oc if oc == "ok" else "raise " + str(out), r=out if oc == "ok" else {}, kept=True, want=[x for x in names if x[0] != "s"])
                ev.append(e)
    chk.validate("CCTrace", "CCTrace.cfg", ev, label="qedcc", timeout=800, key=lambda e, c: "%s %s %s" % (c, e["entry"].split(".")[-1], "".join(str(e["y"][x]) for x in ("no", "nv", "nm", "nf1", "nf2"))))
    chk.assumptions += ["Spin-orbital systems of at most 3+3 (thorough: 4+4) orbitals with integer amplitudes; one photon per excitation for several modes, two for one mode; real couplings, no constant photon force (as the solver uses the equations)."]

"""C01 - resampling keeps the ensemble: count, total weight, whole copies, independent copies."""
import random
import numpy as np
import fakempi
fakempi.install()
import vlib
from vlib import proj, tier
import popdrive, qmcfix

METHODS = ["reconfiguration", "comb", "branching", "off"]


def one(w, unit, method, ncomp, boson, script, run):
    from openms.qmc.population_control import population_control_factory
    n = len(w)
    tr, wk = popdrive.fresh_walkers(n, ncomp, boson)
    names = popdrive.fields(wk, ncomp, boson)
    wk.weights = np.array(w, dtype=float) / unit
    before = popdrive.snapshot(wk, names)
    psi0 = np.array(tr.psi, copy=True)
    ev = {"run": run, "kind": "res", "n": n, "win": list(w), "unit": unit, "method": method, "ncomp": ncomp,
          "boson": boson, "ties": len(set(w)) < n, "wout": [], "parts": [[]], "aliased": False,
          "inputs_changed": False, "draws": [float(x) for x in script],
          "edge": any(x == 0.0 or x > 1 - 1e-9 for x in script)}
    arg = None if method == "off" else method
    with qmcfix.ScriptedDraws(script) as sd:
        ev["outcome"], _ = vlib.outcome(population_control_factory, wk, method=arg)
    if sd.unsupported:   # the code draws in a way that cannot be scripted: let it draw for real
        popdrive_seed = 17 + len(w)
        np.random.seed(popdrive_seed)
        tr, wk = popdrive.fresh_walkers(n, ncomp, boson)
        wk.weights = np.array(w, dtype=float) / unit
        ev["outcome"], _ = vlib.outcome(population_control_factory, wk, method=arg)
    if ev["outcome"] != "ok":
        return ev
    ev["wout"] = [proj(x, 2 * n * unit) for x in np.asarray(wk.weights).ravel()]
    ev["parts"] = [popdrive.source_of(before[k], np.asarray(getattr(wk, k))) for k in names]
    ev["aliased"] = bool(popdrive.aliased(wk, names))
    ev["inputs_changed"] = not np.array_equal(psi0, tr.psi) or wk.nwalkers != n
    return ev


def direct(w, unit, fn, script, run):
    """the stand-alone resamplers, on lists of arrays"""
    from openms.qmc import population_control as pc
    n = len(w)
    func, method = {"systematic": ("systematic_resampling", "comb"), "comb": ("comb_resampling", "comb"),
                           "reconf": ("stochastic_reconfiguration", "reconfiguration"), "pairs": ("branching_dp", "branching")}[fn]
    phi = [np.array([[i + 1.0, -i], [3.0, 10.0 * i]]) for i in range(n)]
    keep = [x.copy() for x in phi]
    ws = np.array(w, dtype=float) / unit
    w0 = ws.copy()
    ev = {"run": run, "kind": "res", "n": n, "win": list(w), "unit": unit, "method": method, "ncomp": 1, "boson": False, "ties": len(set(w)) < n,
          "wout": [], "parts": [[]], "aliased": False, "inputs_changed": False, "draws": [float(x) for x in script],
          "edge": any(x == 0.0 or x > 1 - 1e-9 for x in script)}
    with qmcfix.ScriptedDraws(script) as sd:
        ev["outcome"], out = vlib.outcome(getattr(pc, func), phi, ws)
    if sd.unsupported:
        np.random.seed(17 + n)
        ev["outcome"], out = vlib.outcome(getattr(pc, func), phi, ws)
    if ev["outcome"] != "ok":
        return ev
    new, wn = out
    ev["wout"] = [proj(x, 2 * n * unit) for x in np.asarray(wn).ravel()]
    ev["parts"] = [popdrive.source_of(keep, list(new))]
    ev["inputs_changed"] = not np.array_equal(w0, ws) or any(not np.array_equal(a, b) for a, b in zip(phi, keep))
    return ev


def body(chk):
    rng = random.Random(vlib.SEED)
    cases = chk.cases("PopControl", tier("PopControlGen.cfg", "PopControlGenDeep.cfg"))
    events = []
    variants = [(1, False), (2, False), (1, True), (2, True)]
    for c in cases:
        w, unit = c["w"], c["unit"]
        for m in METHODS:
            nc, b = variants[len(events) % 4]
            u = rng.choice([0.0, rng.random(), rng.random()])
            events.append(one(w, unit, m, nc, b, [u, rng.random(), rng.random()], len(events)))
        events.append(direct(w, unit, rng.choice(["systematic", "systematic", "comb", "reconf", "pairs"]), [u, rng.random(), rng.random()], len(events)))
    # larger populations, extreme weights and extreme draws
    ulast = float(np.nextafter(1.0, 0.0))
    for k in range(tier(400, 4000)):
        n = rng.choice([1, 2, 3, 5, 6, 7, 9, 12, 13])
        unit = 16
        style = rng.randrange(6)
        if style == 0:
            w = [rng.randrange(0, 80) for _ in range(n)]
        elif style == 1:
            w = [rng.choice([0, 1, 2, 16, 32, 33, 60, 200]) for _ in range(n)]
        elif style == 2:
            w = rng.sample(range(0, 150), n)
        elif style == 3:
            w = [0] * n
            w[rng.randrange(n)] = rng.randrange(1, 200)
        elif style == 4:
            w = [rng.randrange(2, 33) for _ in range(n)]      # all inside the branching window
        else:
            w = [16] * n
        if sum(w) == 0:
            w[-1] = 16
        for m in METHODS:
            nc, b = variants[rng.randrange(4)]
            u = rng.choice([0.0, ulast, ulast, rng.random(), rng.random()])
            script = [rng.choice([0.0, ulast, rng.random(), u]) for _ in range(n)]
            script[0] = u
            events.append(one(w, unit, m, nc, b, script, len(events)))
    chk.validate("PopControlTrace", "PopControlTrace.cfg", events)
    chk.assumptions = ["total weight of the population is positive", "weights are non-negative (phaseless ensemble)",
                       "weights chosen dyadic so the code's floating-point sums are exact"]

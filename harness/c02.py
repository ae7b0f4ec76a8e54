"""C02 - resampling is unbiased: exact quadrature over the random draw."""
import random
import numpy as np
import fakempi
fakempi.install()
import vlib
from vlib import proj, tier
import popdrive, qmcfix


def quad(w, unit, method, k, run, nc=1, b=False):
    """Sum over k equidistant draws of the weight carried by copies of each walker."""
    from openms.qmc.population_control import population_control_factory
    n = len(w)
    ev = {"run": run, "kind": "quad", "n": n, "win": list(w), "unit": unit, "method": method, "k": k,
          "outcome": "ok", "carried": [0] * n, "spread": [0] * n, "distinct": 0, "mindistinct": 0}
    acc = np.zeros(n)
    seen = set()
    unscripted = False
    draws = [(2 * j + 1) / (2.0 * k) for j in range(k)]
    j = 0
    while j < len(draws):
        tr, wk = popdrive.fresh_walkers(n, nc, b)
        wk.weights = np.array(w, dtype=float) / unit
        before = popdrive.snapshot(wk, ["phiwa"])
        if not unscripted:
            with qmcfix.ScriptedDraws([draws[j]]) as sd:
                out, _ = vlib.outcome(population_control_factory, wk, method=method)
            # a generator created elsewhere cannot be scripted: fall back to sampling it
            if sd.unsupported or (sd.used == 0 and j == 0 and len(set(w)) > 1):
                unscripted, j, draws = True, 0, [None] * 4000
                acc[:] = 0
                seen = set()
                np.random.seed(vlib.SEED + run)
                continue
        else:
            out, _ = vlib.outcome(population_control_factory, wk, method=method)
        if out != "ok":
            ev["outcome"] = out
            return ev
        src = popdrive.source_of(before["phiwa"], wk.phiwa)
        wn = np.asarray(wk.weights, dtype=float)
        for t in range(min(n, len(src))):
            if src[t]:
                acc[src[t] - 1] += wn[t]
        seen.add(tuple(src))
        j += 1
    ev["k"] = len(draws)
    if unscripted:
        # statistical fallback in integers: 6 standard errors of a bounded variable
        tot = sum(w)
        ev["carried"] = [int(round(x * 2 * n * unit)) for x in acc]
        ev["spread"] = [int(6 * (len(draws) ** 0.5) * 2 * n * tot) + 1 for _ in w]
        ev["sampled"] = True
    else:
        ev["carried"] = [proj(x, 2 * n * unit, 1e-6) for x in acc]
    ev["distinct"] = len(seen)
    return ev


def body(chk):
    rng = random.Random(vlib.SEED + 1)
    cases = chk.cases("PopControl", tier("PopControlGen.cfg", "PopControlGenDeep.cfg"))
    events = []
    rng.shuffle(cases)
    # systematic: W cells put every threshold on a cell boundary
    for c in cases[:tier(150, 1200)]:
        w, unit = c["w"], c["unit"]
        tot = sum(w)
        for m in ("reconfiguration", "comb"):
            events.append(quad(w, unit, m, tot, len(events)))
    for i in range(tier(60, 400)):
        n = rng.choice([2, 3, 5, 6, 8])
        w = [rng.choice([0, rng.randrange(0, 12), rng.randrange(0, 30)]) for _ in range(n)]
        if sum(w) == 0:
            w[0] = 3
        for m in ("reconfiguration", "comb"):
            events.append(quad(w, 8, m, sum(w), len(events), *rng.choice([(1, False), (2, True)])))
    # branching: one draw per pair; k = lcm of the pair sums puts every threshold on a cell boundary
    from math import gcd
    done = 0
    while done < tier(120, 1000):
        n = rng.choice([2, 3, 4, 5, 6])
        unit = 16
        w = sorted({rng.choice([rng.randrange(0, 3), rng.randrange(0, 40), rng.randrange(30, 90)]) for _ in range(n)})
        rng.shuffle(w)
        n = len(w)
        s = sorted(w)
        k = 1
        for a in range(n // 2):
            t = s[a] + s[n - 1 - a]
            k = k * t // gcd(k, t) if t else k
        if n < 2 or k > 400 or sum(w) == 0:
            continue
        done += 1
        events.append(quad(w, unit, "branching", k, len(events), *rng.choice([(1, False), (2, True)])))
    chk.validate("PopControlTrace", "PopControlTrace.cfg", events)
    chk.assumptions = ["the random generator delivers uniform draws on [0,1)",
                       "if the draws cannot be scripted the expectation is sampled (6 sigma bound)"]

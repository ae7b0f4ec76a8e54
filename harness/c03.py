"""C03 - weight control over a run: cadence, cap, normalisation over all ranks, raw record."""
import random
import numpy as np
import fakempi
fakempi.install()
import vlib
from vlib import tier
import popdrive

S = 10000


def rnd(x, scale=S):
    try:
        v = float(np.real(x)) * scale
    except Exception:
        return vlib.NOTINT
    if v != v or abs(v) > 1.9e9:
        return vlib.NOTINT
    return int(round(v))


def history(n, ranks, steps, weights, method, freq, ncomp, boson, run):
    """steps: list of step numbers; weights[k]: ensemble weights (ints, units 1/16) fed before call k."""
    def rank_body(r):
        tr, wk = popdrive.fresh_walkers(n, ncomp, boson)
        names = popdrive.fields(wk, ncomp, boson)
        lo = sum(n // ranks + (1 if k < n % ranks else 0) for k in range(r))
        hi = lo + wk.nwalkers
        out = []
        for k, st in enumerate(steps):
            if weights[k] is not None:
                wk.weights = np.array(weights[k][lo:hi], dtype=float) / 16.0
            # every walker gets a unique orbital again so movement is visible
            for i in range(wk.nwalkers):
                wk.phiwa[i] = 1000 * r + i + 1
            win = np.array(wk.weights, copy=True)
            before = popdrive.snapshot(wk, ["phiwa"])
            try:
                wk.weight_control(st, freq=freq, method=method)
                oc = "ok"
            except fakempi.CollectiveMismatch:
                raise
            except Exception as e:  # noqa
                oc = "raise " + type(e).__name__
            src = popdrive.source_of(before["phiwa"], wk.phiwa)
            moved = src != list(range(1, wk.nwalkers + 1))
            out.append((oc, win, np.array(wk.weights, copy=True), float(np.real(wk.total_weight)),
                        np.array(wk.weights_org, copy=True), moved, len(src) == wk.nwalkers and all(src)))
            if oc != "ok":
                break
        return out
    res, _ = fakempi.run_ranks(ranks, rank_body)
    events = []
    bad = [r for r in res if r[0] != "ok"]
    if bad:
        events.append({"step": 0, "freq": freq, "method": str(method), "win": [0] * n, "wout": [0] * n, "total": [0],
                       "org": [0] * n, "scaled": [0] * n, "sumout": 0, "localscaled": [0], "localcap": [0],
                       "moved": [False], "copies": [True], "outcome": ["raise " + bad[0][1]], "detail": bad[0][2][-300:]})
    else:
        total_before = float(n)
        for k in range(min(len(r[1]) for r in res)):
            st = steps[k]
            recs = [r[1][k] for r in res]
            win = np.concatenate([x[1] for x in recs])
            wout = np.concatenate([np.ravel(x[2]) for x in recs])
            org = np.concatenate([np.ravel(x[4]) for x in recs])
            tot = recs[0][3]
            # per-rank share of the capped weight (input to resampling), in 1/S
            bound = 0.1 * total_before
            cap = [np.clip(x[1], -bound, bound) if st > 0 else x[1] for x in recs]
            events.append({"step": st, "freq": freq, "method": str(method),
                           "win": [rnd(x) for x in win], "wout": [rnd(x) for x in wout], "total": [rnd(x[3]) for x in recs],
                           "org": [rnd(x) for x in org] if org.size == n else [vlib.NOTINT] * n,
                           "scaled": [rnd(x * tot) for x in wout], "sumout": rnd(np.sum(np.abs(wout))),
                           "localscaled": [rnd(np.sum(np.abs(x[2])) * tot) for x in recs],
                           "localcap": [rnd(np.sum(np.abs(c))) for c in cap],
                           "moved": [bool(x[5]) for x in recs], "copies": [bool(x[6]) for x in recs], "outcome": [x[0] for x in recs]})
            if (st + 1) % freq == 0:
                total_before = tot
    return {"run": run, "init": {"n": n, "ranks": ranks, "ncomp": ncomp, "boson": boson}, "events": events}


def body(chk):
    rng = random.Random(vlib.SEED + 3)
    chk.model("WeightControl", tier("WeightControl.cfg", "WeightControlDeep.cfg"))
    runs = []
    for i in range(tier(260, 2500)):
        n = rng.choice([2, 3, 4, 5, 7, 8, 11, 12])
        ranks = rng.choice([1, 1, 2, 3, 4])
        ranks = min(ranks, n)
        freq = rng.choice([1, 2, 3, 5])
        method = rng.choice([None, "reconfiguration", "comb", "branching", "unknown"])
        nst = rng.choice([3, 5, 8])
        start = rng.choice([0, 0, 0, 1, 4])
        ws = []
        for k in range(nst):
            style = rng.randrange(5)
            if style == 0 and k > 0:
                ws.append(None)             # keep the weights the code left
            elif style == 1:
                ws.append([rng.randrange(1, 400) for _ in range(n)])
            elif style == 2:
                ws.append([16] * (n - 1) + [rng.choice([600, 50, 1])])
            elif style == 3 and method in (None, "unknown"):
                ws.append([rng.choice([-1, 1]) * rng.randrange(1, 60) for _ in range(n)])
            else:
                ws.append([rng.randrange(1, 40) for _ in range(n)])
        nc, b = rng.choice([(1, False), (2, False), (1, True), (2, True)])
        np.random.seed(rng.randrange(2 ** 31))
        runs.append(history(n, ranks, list(range(start, start + nst)), ws, method, freq, nc, b, i))
    chk.validate("WeightControlTrace", "WeightControlTrace.cfg", runs)
    chk.assumptions = ["ranks are simulated by threads behind an in-process mpi4py stand-in (no MPI is installed)",
                       "every rank holds at least one walker and positive weight"]

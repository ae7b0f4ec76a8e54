"""C04 - a run on several ranks is the run on one rank."""
import os
if os.environ.get("VERIF_TIER", "quick") != "thorough":
    os.environ["NUMBA_DISABLE_JIT"] = "1"   # tiny systems: compiling costs more than it saves (C06, C07 use the compiled kernels)
import random
import numpy as np
import fakempi
fakempi.install()
import vlib
from vlib import tier
import qmcrun, popdrive

S = 10 ** 7


def fx(x, s=S):
    try:
        v = float(np.real(x)) * s
    except Exception:
        return vlib.NOTINT
    return int(round(v)) if v == v and abs(v) < 1.9e9 else vlib.NOTINT


def run(size, salt, debug_mpi, kw, entry="method"):
    def rank_body(r):
        q = qmcrun.build(**kw)
        q.propagator.debug_mpi = debug_mpi
        if debug_mpi:                     # walkers that differ from the first step on, the same on any number of ranks
            first = sum(int(x) for x in q.walkers.walker_counter[:r]) if size > 1 else 0
            for i in range(q.walkers.nwalkers):
                g = np.random.RandomState(100 + first + i)
                for nm in ("phiwa", "phiwb", "boson_phiw"):
                    ph = getattr(q.walkers, nm, None)
                    if ph is not None and (nm != "phiwb" or q.walkers.ncomponents > 1):
                        ph[i] = ph[i] + 0.1 * g.uniform(-1, 1, size=ph[i].shape)
        parts = []
        orig = q.propagator.local_energy

        def rec(*a, **k):
            res = orig(*a, **k)
            parts.extend(float(np.real(x)) for x in res)
            return res
        q.propagator.local_energy = rec
        from openms.qmc import qmc
        t, e = q.kernel() if entry == "method" else qmc.kernel(q)
        w = q.walkers
        return (list(e), q.eshift, np.array(w.weights), float(np.real(w.raw_norm)), np.array(w.ehybrid), parts)
    res, log = fakempi.run_ranks(size, rank_body, salt=salt)
    return res


def body(chk):
    rng = random.Random(vlib.SEED + 4)
    chk.model("RankRun", tier("RankRun.cfg", "RankRunDeep.cfg"))
    events = []
    # distribution
    for size in range(1, tier(8, 14)):
        for n in list(range(size, size + 9)) + [rng.randrange(size, 200)]:
            ncomp, boson = rng.choice([(1, False), (2, False), (1, True)])
            per = []
            for r in range(size):
                with fakempi.lone_rank(r, size):
                    _, wk = popdrive.fresh_walkers(n, ncomp, boson)
                names = ["weights", "weights_org", "phiwa", "ehybrid", "eloc", "ovlp"] + (["phiwb"] if ncomp > 1 else []) \
                    + (["boson_phiw"] if boson else [])
                per.append(([int(x) for x in wk.walker_counter], [int(x) for x in wk.displs], int(wk.global_nwalkers),
                            [len(getattr(wk, k)) for k in names] + [int(wk.nwalkers)]))
            events.append({"kind": "split", "n": n, "size": size, "counts": [p[0] for p in per], "displs": [p[1] for p in per],
                           "globaln": [p[2] for p in per], "sizes": [p[3] for p in per]})
    qmcrun.warm()
    # whole runs with the same random fields on 1 and on several ranks
    for i in range(tier(40, 400)):
        n = rng.choice([3, 4, 5, 6, 7])
        kw = dict(nat=rng.choice([2, 4]), num_walkers=n, property_calc_freq=rng.choice([1, 2, 3]), dt=rng.choice([0.01, 0.05]),
                  pop_control_freq=rng.choice([2, 3]), renorm_freq=rng.choice([2, 3]), random_seed=rng.randrange(1, 10 ** 6))
        kw["total_time"] = kw["dt"] * 7.5
        style = rng.randrange(6)
        if style == 1:
            kw["uhf"] = True
        elif style in (2, 3):
            kw["boson"] = rng.choice([1, 2])
        elif style == 4:
            kw.update(boson=1, propagator_options={"decouple_bilinear": True})
        elif style == 5:
            kw.update(boson=1, uhf=True)
        size = rng.choice([2, 3])
        entry = rng.choice(["method", "function"])
        ref = run(1, rng.randrange(10 ** 6), True, kw, entry)
        many = run(size, rng.randrange(10 ** 6), True, kw, entry)
        ev = {"kind": "run", "n": n, "size": size, "outcome": [x[0] if x[0] == "ok" else x[1] for x in ref + many],
              "style": style, "nat": kw["nat"]}
        if all(o == "ok" for o in ev["outcome"]):
            ev.update(energy=[[fx(e) for e in x[1][0]] for x in many], shift=[[fx(x[1][1])] for x in many],
                      weights=[fx(v) for x in many for v in x[1][2]], rawnorm=[fx(x[1][3]) for x in many],
                      parts=[[fx(v) for v in x[1][5]] for x in many],
                      ref_energy=[fx(e) for e in ref[0][1][0]], ref_shift=[fx(ref[0][1][1])],
                      ref_weights=[fx(v) for v in ref[0][1][2]], ref_rawnorm=fx(ref[0][1][3]),
                      ref_parts=[fx(v) for v in ref[0][1][5]])
        else:
            ev["detail"] = str([x[2][-300:] for x in ref + many if x[0] != "ok"])
        events.append(ev)
    # seeding
    for i in range(tier(12, 60)):
        entry = ("method", "function")[i % 2]
        size = rng.choice([1, 2, 3])
        kw = dict(nat=4, num_walkers=rng.choice([4, 5, 6]), property_calc_freq=2, dt=0.01, total_time=0.045,
                  random_seed=rng.randrange(1, 10 ** 6))
        if rng.random() < 0.3:
            kw["boson"] = 1
        a = run(size, 1 + rng.randrange(10 ** 6), False, kw, entry)
        b = run(size, 1 + rng.randrange(10 ** 6), False, kw, entry)
        c = run(size, 1 + rng.randrange(10 ** 6), False, dict(kw, random_seed=kw["random_seed"] + 1), entry)
        ev = {"kind": "seeds", "size": size, "outcome": [x[0] if x[0] == "ok" else x[1] for x in a + b + c]}
        if all(o == "ok" for o in ev["outcome"]):
            ev.update(energy_a=[fx(e) for e in a[0][1][0]], energy_b=[fx(e) for e in b[0][1][0]],
                      energy_c=[fx(e) for e in c[0][1][0]], walkers=[fx(v) for x in a for v in x[1][4]])
        events.append(ev)
    chk.validate("RankTrace", "RankTrace.cfg", events)
    chk.assumptions = ["ranks are simulated: one at a time between collectives, each with its own random stream (no MPI installed)",
                       "population control methods that resample act on the walkers of one rank by design; runs here leave them off"]

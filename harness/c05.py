"""C05 - the AFQMC driver's schedule and bookkeeping, around a scripted propagator."""
import os
if os.environ.get("VERIF_TIER", "quick") != "thorough":
    os.environ["NUMBA_DISABLE_JIT"] = "1"   # tiny systems: compiling costs more than it saves (C06, C07 use the compiled kernels)
import random
import numpy as np
import vlib
from vlib import tier
import qmcrun

S = 10000
N = 24


def fx(x, s=S):
    try:
        v = float(np.real(x)) * s
    except Exception:
        return vlib.NOTINT
    return int(round(v)) if v == v and abs(v) < 1.9e9 else vlib.NOTINT


class Script:
    """A propagator that does what the script says and records what it is given."""
    debug_mpi = False

    def __init__(self, q, rng, events):
        self.q, self.rng, self.events = q, rng, events
        for k, v in vars(q.propagator).items():
            setattr(self, k, v)

    def build(self, *a, **k):
        pass

    def dump_flags(self):
        pass

    def weights(self):
        w = [2] * N                       # units of 1/2; total stays N
        for _ in range(self.rng.randrange(1, 8)):
            i, j = self.rng.sample(range(N), 2)
            if w[i] < 4 and w[j] > 1:
                w[i] += 1
                w[j] -= 1
        return w

    def propagate_walkers(self, trial, walkers, ltensor, eshift=0.0, verbose=0):
        win = [fx(x) for x in walkers.weights]
        ok = True
        for ph in [walkers.phiwa] + ([walkers.phiwb] if walkers.ncomponents > 1 else []):
            g = np.einsum("zpi,zpj->zij", ph.conj(), ph)
            ok = ok and bool(np.max(np.abs(g - np.eye(g.shape[1]))) < 1e-8)
        walkers.phiwa *= 2.0
        if walkers.ncomponents > 1:
            walkers.phiwb *= 2.0
        w, h = self.weights(), [self.rng.randrange(-9, 10) for _ in range(N)]
        if self.q.pop_control_method in ("comb", "reconfiguration"):
            h = [h[0]] * N                # resampling moves the energies along: keep them equal
        walkers.weights[:] = np.array(w) / 2.0
        walkers.ehybrid = np.array(h, dtype=float)
        self.events.append({"kind": "prop", "fresh": ok, "eshift": fx(eshift), "win": win, "wset": w, "hset": h,
                            "objects": walkers is self.q.walkers and trial is self.q.trial})

    def local_energy(self, h1e, ltensor, walkers, trial, enuc=0.0):
        num, den = self.rng.randrange(-500, 500), self.rng.randrange(1, 60)
        self.events.append({"kind": "energy", "win": [fx(x) for x in walkers.weights], "eshift": fx(self.q.eshift),
                            "num": num, "den": den})
        return [np.float64(num), np.float64(den), np.float64(1.0), np.float64(2.0)]


def one(rng, i):
    from openms.qmc import qmc
    dt = rng.choice([1 / 64, 1 / 128, 0.1, 0.05, 0.005])
    nsteps = rng.choice([1, 3, 6, 7, 10, 12])
    renorm, pop, calc = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 5])
    method = rng.choice([None, None, "comb", "reconfiguration"])
    q = qmcrun.build(nat=2, num_walkers=N, dt=dt, total_time=round(dt * (nsteps + rng.choice([0, 0, 0.25, 0.75])), 9), renorm_freq=renorm,
                     pop_control_freq=pop, pop_control_method=method, property_calc_freq=calc,
                     uhf=bool(rng.random() < 0.4))
    events = []
    sc = Script(q, rng, events)
    for ph in [q.walkers.phiwa] + ([q.walkers.phiwb] if q.walkers.ncomponents > 1 else []):
        ph *= 3.0                         # the driver has to orthonormalise before the first step
    entry = rng.choice(["method", "method", "function"])
    try:
        t, e = q.kernel(propagator=sc) if entry == "method" else qmc.kernel(q, propagator=sc)
        events.append({"kind": "end", "times": [vlib.proj(x / dt) for x in t], "energies": [fx(x) for x in e]})
    except Exception as ex:  # noqa
        events.append({"kind": "raise", "name": type(ex).__name__ + ": " + str(ex)[:200]})
    return {"run": i, "init": {"nsteps": nsteps, "renorm": renorm, "pop": pop, "calc": calc, "method": str(method), "n": N,
                               "entry": entry}, "events": events}


def body(chk):
    rng = random.Random(vlib.SEED + 5)
    chk.model("Driver", tier("Driver.cfg", "DriverDeep.cfg"))
    runs = [one(rng, i) for i in range(tier(150, 1500))]
    chk.validate("DriverTrace", "DriverTrace.cfg", runs)
    chk.assumptions = ["the propagator is replaced, through kernel(propagator=...), by one that follows a script",
                       "weights in the script keep their total at the number of walkers, so that rescaling is exact"]

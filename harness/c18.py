"""C18 - statistics of a run."""
import random
import numpy as np
import vlib
from vlib import tier, outcome, proj_list, proj


def lags(x):
    """Scale only: the exact integer denominator of the autocorrelation."""
    n = len(x)
    d = [n * v - sum(x) for v in x]
    return sum(v * v for v in d) or 1


def body(chk):
    cases = [c["x"] for c in chk.cases("Stat", "Stat.cfg", timeout=600)]
    if tier(0, 1):
        chk.model("Stat", "StatDeep.cfg", timeout=600)
    from openms.qmc import tools
    rng = random.Random(vlib.SEED * 19 + 18)
    rng.shuffle(cases)
    series = list(cases[:tier(200, 400)])
    for i in range(tier(120, 1500)):
        n = rng.choice([6, 8, 9, 12, 16, 17, 24, 31, 32])
        k = rng.choice(["white", "walk", "alt", "const", "spike", "blocks"])
        if k == "white":
            x = [rng.randint(-5, 5) for _ in range(n)]
        elif k == "walk":
            x = [0]
            while len(x) < n:
                x.append(max(-6, min(6, x[-1] + rng.choice([-1, 0, 1]))))
        elif k == "alt":
            x = [rng.randint(0, 1) + 4 * (j % 2) for j in range(n)]
        elif k == "const":
            x = [rng.randint(-3, 3)] * n
        elif k == "spike":
            x = [rng.randint(0, 1) for _ in range(n)]
            for j in range(rng.randint(1, 3)):
                x[rng.randrange(n)] = rng.choice([-40, 40, 9])
        else:
            w = rng.randint(2, 5)
            v = [rng.randint(-4, 4) for _ in range(n)]
            x = [v[j // w] for j in range(n)]
        series.append(x)
    ev = []
    for i, x in enumerate(series):
        n = len(x)
        form = rng.choice([np.array, lambda a, dtype=float: [float(v) for v in a]])
        d = lags(x)

        def add(op, e, fn):
            a = form(x, dtype=float)
            keep = np.array(a, copy=True)
            oc, out = outcome(lambda: fn(a))
            if oc == "ok" and not np.array_equal(np.asarray(a), keep):
                oc = "the series was changed"
            if oc == "ok":
                e.update(out)
            ev.append(dict(e, op=op, x=x, oc=oc if oc != "raise" else "raise " + str(out)))

        nn = rng.choice([1, 2, 3, 10])

        def mean(a):
            a = np.array(a) + 1j * np.arange(n)[::-1]
            mu, sd = tools.get_mean_std(list(a) if i % 2 else a, nn) if nn != 10 else tools.get_mean_std(a)
            m = max(1, n // nn)
            return {"mean": proj(mu, m), "m": m, "var2": proj(sd * sd, m * m, 1e-6), "n": nn}
        add("mean", {}, mean)
        add("acf", {"norm": d}, lambda a: {"acf": [proj(v, d) for v in np.asarray(tools.autocorr_func(a))]})
        c = rng.choice([1, 3, 5, 5])
        add("time", {"norm": d, "c": c}, lambda a: {"time": proj(tools.get_autocorr_time(a, float(c)) if c != 5 else tools.get_autocorr_time(a), d)})
        th = rng.choice([1, 2, 3])
        for m in ("zscore", "iqr"):
            def kept(a):
                # give every point its own identity in the order of the series
                r = [int(round(v)) for v in tools.remove_outliers(a, method=m, threshold=th)]
                vals = set(r)
                k = [v in vals for v in x]
                return {"kept": k, "order": r == [v for v, q in zip(x, k) if q]}
            add(m, {"th": th}, kept)
        if n >= 2:
            meth, t2 = rng.choice([("zscore", 10.), ("zscore", 3.), ("iqr", 3.), (None, None)])
            kw = {} if meth is None else {"method": meth, "threshold": t2}
            nm = rng.choice(["etot", "e1"])

            def blocked(a):
                r = tools.analysis_autocorr(a, name=nm, **kw)
                b, nb = int(r["ac_sampsize"][0]), int(r[nm + "_nsamp"][0])
                return {"b": b, "nb": nb, "mean": proj(r[nm][0], b * nb), "err2": proj(r[nm + "_error"][0] ** 2, float(nb ** 3) * b * b, 1e-6)}
            oc, z = outcome(tools.remove_outliers, form(x, dtype=float), **(kw or {"method": "zscore", "threshold": 10.}))
            add("blocked", {}, blocked)
            ev[-1]["x"] = [int(round(v)) for v in z] if oc == "ok" else x
            if not ev[-1]["x"]:
                ev[-1]["oc"] = "nothing left"
    chk.validate("StatTrace", "StatTrace.cfg", ev, timeout=800)
    chk.assumptions += ["series of integers (others by linearity), finite values", "exact ties of window, block length and z-score threshold may be rounded either way"]

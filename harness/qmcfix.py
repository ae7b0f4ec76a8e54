"""Small AFQMC objects built through the public constructors, with integer data."""
import numpy as np


def hmol(nao, na, nb, boson=None):
    from pyscf import gto
    atoms = [("H", (1.7 * i, 0.0, 0.1 * (i % 2))) for i in range(nao)]
    mol = gto.M(atom=atoms, basis="sto-3g", unit="Bohr", charge=nao - (na + nb), spin=na - nb, verbose=0)
    return mol


def make_trial(nao, na, nb, ncomp, psia=None, psib=None, boson_psi=None, mol=None):
    """A TrialHF whose orbitals are exactly psia/psib (identity metric)."""
    from pyscf import scf
    from openms.qmc.trial import TrialHF
    mol = mol or hmol(nao, na, nb)
    mf = scf.RHF(mol) if na == nb else scf.ROHF(mol)
    mf.verbose = 0
    mf.get_ovlp = lambda *a, **k: np.eye(nao)
    mf.mo_coeff = np.eye(nao)
    mf.mo_occ = np.zeros(nao)
    tr = TrialHF(mol, mf=mf, ncomponents=ncomp, verbose=0)
    tr.build()
    if psia is None:
        psia = np.eye(nao)[:, :na]
    if psib is None:
        psib = np.eye(nao)[:, :nb]
    cast = lambda a: np.array(a, dtype=complex if np.iscomplexobj(a) else float)
    tr.psia, tr.psib = cast(psia), cast(psib)
    tr.psi = np.hstack([tr.psia, tr.psib]) if ncomp > 1 else tr.psia
    if boson_psi is not None:
        tr.boson_psi = np.array(boson_psi)
    return tr


class ScriptedDraws:
    """Serve uniform draws from a script through every numpy.random / random entry point.

    `unsupported` is set when the code draws in a way that cannot be scripted;
    `used` counts the draws served."""

    def __init__(self, script):
        self.script = list(script)
        self.used = 0
        self.unsupported = False

    def _next(self):
        v = self.script[self.used % len(self.script)]
        self.used += 1
        return v

    def _u(self, size=None):
        if size is None or size == ():
            return float(self._next())
        n = int(np.prod(size))
        return np.array([self._next() for _ in range(n)], dtype=float).reshape(size)

    def rand(self, *shape):
        return self._u(shape if shape else None)

    def random(self, size=None, **k):
        return self._u(size)

    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._u(size)

    def seed(self, *a, **k):
        return None

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def nope(*a, **k):
            self.unsupported = True
            raise RuntimeError("unscripted draw: " + name)
        return nope

    def __enter__(self):
        import random as pyrandom
        self.saved = []
        names = ("rand", "random", "random_sample", "ranf", "sample", "uniform")
        for n in names:
            self.saved.append((np.random, n, getattr(np.random, n)))
            setattr(np.random, n, getattr(self, n))
        for n in ("choice", "randint", "multinomial", "binomial", "normal", "permutation", "shuffle", "standard_normal", "randn"):
            self.saved.append((np.random, n, getattr(np.random, n)))
            setattr(np.random, n, self.__getattr__(n))
        for n in ("default_rng", "RandomState", "Generator"):
            self.saved.append((np.random, n, getattr(np.random, n)))
            setattr(np.random, n, lambda *a, **k: self)
        self.saved.append((pyrandom, "random", pyrandom.random))
        pyrandom.random = lambda: self._u()
        self.saved.append((pyrandom, "uniform", pyrandom.uniform))
        pyrandom.uniform = lambda a, b: a + (b - a) * self._u()
        return self

    def __exit__(self, *a):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)

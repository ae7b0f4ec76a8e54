"""Runs the real AFQMC driver on small systems, serially or on simulated ranks."""
import numpy as np
import fakempi

_SYS = {}


def system(nat, spin=0, boson=0):
    """(mol, mf) of a short hydrogen chain, built once."""
    key = (nat, spin, boson)
    if key not in _SYS:
        from pyscf import gto, scf
        mol = gto.M(atom=[("H", (1.8 * i, 0.0, 0.3 * (i % 2))) for i in range(nat)], basis="sto-3g",
                    unit="Bohr", spin=spin, verbose=0)
        mf = scf.RHF(mol) if spin == 0 else scf.ROHF(mol)
        mf.verbose = 0
        mf.kernel()
        gm = None
        if boson:
            from openms.lib import boson as bl
            dip = bl.get_dipole_ao(mol)
            vec = np.array([[0.06, 0.0, 0.03], [0.02, 0.0, 0.05]])[:boson]
            gm = np.einsum("nx,xuv->nuv", vec, dip)
        _SYS[key] = (mol, mf, gm)
    return _SYS[key]


def build(nat=2, spin=0, boson=0, **kw):
    from openms.qmc.afqmc import AFQMC
    mol, mf, gm = system(nat, spin, boson)
    mol = mol.copy()
    opts = dict(dt=0.01, total_time=0.1, num_walkers=6, energy_scheme="hybrid", chol_thresh=1e-8, verbose=0, mf=mf)
    if boson:
        opts.update(boson_freq=np.array([0.5, 0.3])[:boson], gmat=gm, nphoton=3)
    opts.update(kw)
    return AFQMC(mol, **opts)


def warm():
    """Compile the kernels once, outside the simulated ranks."""
    for kw in (dict(), dict(uhf=True), dict(boson=1)):
        build(total_time=0.02, num_walkers=2, property_calc_freq=1, **kw).kernel()

"""Second batch of planted changes (see DESIGN.md); run with VERIF_DIR/VERIF_REPO set to write them elsewhere."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from newseed import make

MOL = '''
import numpy as np
from pyscf import gto, scf
def h2o():
    return gto.M(atom="O 0 0 0; H 0 -0.757 0.587; H 0 0.757 0.587", basis="sto-3g", verbose=0)
def chain(n, spin=0):
    return gto.M(atom="; ".join("H 0 0 %f" % (1.6 * i) for i in range(n)), basis="sto-3g", spin=spin, verbose=0)
'''

make("B05", "C04",
     [("openms/qmc/qmc.py", "                self.property_buffer = reduced_buffer\n",
       "                if walkers._mpi.rank == 0:\n                    self.property_buffer = reduced_buffer\n")],
     "several ranks; the energy shift of the ranks other than the first after a measurement",
     "ranks other than the first keep the shift of their own walkers, so the ranks run with different energy shifts",
     MOL + '''
from types import SimpleNamespace as NS
from openms.qmc.afqmc import AFQMC
mol = chain(2)
def run(rank):
    q = AFQMC(mol, dt=0.01, total_time=0.05, num_walkers=4, energy_scheme="hybrid", verbose=0, property_calc_freq=1)
    w = q.walkers
    w._mpi = NS(size=2, rank=rank, comm=NS(allreduce=lambda x, op=None: x + np.array([4.0, 4.0, 12.0, 0.0])))
    w.weights = np.ones(4); w.ehybrid = np.array([1.0, 1.0, 1.0, 1.0]); w.eloc = np.zeros(4)
    q.property_stack(w, 0)
    return q.eshift
a, b = run(0), run(1)
assert abs(a - 2.0) < 1e-9, a
assert abs(b - 2.0) < 1e-9, b
''')

make("B06", "C05",
     [("openms/qmc/qmc.py", '        self.property_buffer += backend.array(tmp)\n',
       '        self.property_buffer[:] = backend.array(tmp)\n')],
     "a run with property_calc_freq above one",
     "the energy shift is taken from the last step of a measurement interval instead of the mean over the interval",
     MOL + '''
from openms.qmc.afqmc import AFQMC
q = AFQMC(chain(2), dt=0.01, total_time=0.05, num_walkers=4, energy_scheme="hybrid", verbose=0, property_calc_freq=2)
w = q.walkers
w.weights = np.ones(4); w.weights_org = np.ones(4); w.eloc = np.zeros(4)
for step, e in enumerate([1.0, 3.0, 10.0, 20.0]):
    w.ehybrid = np.full(4, e)
    q.property_stack(w, step)
    if step == 1: assert abs(q.eshift - 2.0) < 1e-9, q.eshift
assert abs(q.eshift - 15.0) < 1e-9, q.eshift
''')

make("B07", "C06",
     [("openms/qmc/trial.py", 'walker.boson_Gf = backend.einsum("zM, N->zMN", walker.boson_Ghalf, trial.boson_psi.conj())',
       'walker.boson_Gf = backend.einsum("zM, N->zMN", walker.boson_Ghalf, trial.boson_psi)')],
     "a trial whose boson state has complex amplitudes",
     "the boson Green's function is not the mixed expectation value: the trial amplitudes are not conjugated",
     MOL + '''
from openms.qmc.trial import TrialHF
from openms.qmc.generic_walkers import make_walkers
mol = chain(2); mf = scf.RHF(mol); mf.kernel()
tr = TrialHF(mol, mf=mf, ncomponents=1, verbose=0); tr.build()
tr.boson_psi = np.array([0.8, 0.6j, 0.3 + 0.1j])
wk = make_walkers(tr, {"nwalkers": 2})
wk.boson_phiw = np.array([[1.0, 0.2, 0.1], [0.3, 0.5j, 1.0]], dtype=complex)
tr.ovlp_with_walkers_gf(wk)
for z in range(2):
    s = np.vdot(tr.boson_psi, wk.boson_phiw[z])
    want = np.outer(wk.boson_phiw[z], tr.boson_psi.conj()) / s
    assert np.allclose(wk.boson_Gf[z], want), (wk.boson_Gf[z], want)
''')

make("B08", "C07",
     [("openms/qmc/propagators.py", "walkers.phiwb = propagate_onebody_kernel(self.exp_h1e[1], walkers.phiwb)",
       "walkers.phiwb = propagate_onebody_kernel(self.exp_h1e[0], walkers.phiwb)")],
     "an unrestricted Hamiltonian whose one-body matrix differs between the spins",
     "beta orbitals are propagated with the one-body operator of the alpha electrons",
     MOL + '''
from types import SimpleNamespace as NS
from openms.qmc.propagators import Phaseless
p = Phaseless(dt=0.01, energy_scheme="hybrid", verbose=0)
rng = np.random.default_rng(1)
p.exp_h1e = rng.standard_normal((2, 3, 3)) + 0j
a = rng.standard_normal((2, 3, 1)) + 0j; b = rng.standard_normal((2, 3, 1)) + 0j
w = NS(phiwa=a.copy(), phiwb=b.copy(), ncomponents=2, nwalkers=2)
p.propagate_walkers_onebody(w)
assert np.allclose(w.phiwa, p.exp_h1e[0] @ a)
assert np.allclose(w.phiwb, p.exp_h1e[1] @ b)
''')


make("B09", "C08",
     [("openms/qmc/qmc.py", "        self.random_seed = random_seed\n", "        self.random_seed = random_seed\n        backend.random.seed(self.random_seed)\n"),
      ("openms/qmc/qmc.py", "            backend.random.seed(self.random_seed)\n", "            pass\n")],
     "random numbers drawn (by the caller or by another simulation) between building a simulation and running it",
     "a seeded run depends on what happened since it was built",
     MOL + """
from openms.qmc.afqmc import AFQMC
mol = chain(2)
def build(): return AFQMC(mol, dt=0.01, total_time=0.1, num_walkers=4, energy_scheme="hybrid", verbose=0, property_calc_freq=2, random_seed=7)
a = np.array(build().kernel()[1])
q = build(); np.random.rand(3)
b = np.array(q.kernel()[1])
assert np.allclose(a, b, atol=1e-12), (a, b)
""")

make("B10", "C09",
     [("openms/lib/boson.py", "        origin -= origin_shift\n\n    with mol.with_common_orig(origin):\n        quadrupole_ao", "        origin += origin_shift\n\n    with mol.with_common_orig(origin):\n        quadrupole_ao")],
     "a shifted origin together with the quadrupole form of the self-energy",
     "dipole and quadrupole matrices are taken about different origins",
     MOL + """
from openms.lib.boson import get_quadrupole_ao
mol = h2o()
for nuc in (True, False):
    o = np.array([0.3, -0.2, 0.5])
    c = np.einsum("i,ix->x", mol.atom_charges(), mol.atom_coords()) / mol.atom_charges().sum() if nuc else np.zeros(3)
    with mol.with_common_orig(c - o): want = -mol.intor("int1e_rr")
    assert np.allclose(get_quadrupole_ao(mol, nuc, o), want)
""")

make("B11", "C10",
     [("openms/mqed/qedfci.py", "        t2b = numpy.dot(g2e_ab.reshape(norb**2, -1).T, t1a.reshape(norb**2, -1))", "        t2b = numpy.dot(g2e_ab.reshape(norb**2, -1), t1a.reshape(norb**2, -1))")],
     "spin-resolved integrals whose alpha-beta part is not symmetric under exchange of the electrons (different orbitals for different spins)",
     "the two-electron operator is no longer the second-quantised one",
     """
import numpy as np
from openms.mqed.qedfci import contract_2e
norb, nelec = 2, (1, 1)
eri = [np.zeros((2,) * 4) for _ in range(3)]
eri[1][0, 0, 1, 1] = 1.0     # alpha in 0, beta in 1
ci = np.zeros((2, 2, 1)); ci[0, 1, 0] = 1.0
out = contract_2e(eri, ci, norb, nelec, 1, [0]).reshape(2, 2)
assert np.allclose(out, [[0, 2], [0, 0]]), out
ci = np.zeros((2, 2, 1)); ci[1, 0, 0] = 1.0
out = contract_2e(eri, ci, norb, nelec, 1, [0]).reshape(2, 2)
assert np.allclose(out, 0), out
""")

make("B12", "C11",
     [("openms/mqed/myqedcc_equations_opt.py", "    Ftemp = Foo + 0.5*einsum('jb,bi->ji',Fov,T1old)", "    Ftemp = Foo + 0.5*einsum('jb,bi->ji',F.ov,T1old)")],
     "non-zero single excitations together with the integrals or photon amplitudes that dress the occupied-virtual Fock block",
     "the doubles residual misses terms of the similarity-transformed Hamiltonian",
     """
import numpy as np
from openms.mqed import myqedcc_equations_opt as mo, qedcc_equations as qq
from openms.lib.ov_blocks import one_e_blocks, make_two_e_blocks, make_two_e_blocks_full
rs = np.random.RandomState(3); no, nv, n = 2, 2, 4
def anti(x):
    x = x - np.swapaxes(x, -4, -3); return x - np.swapaxes(x, -2, -1)
f = rs.rand(n, n); f = f + f.T
i = anti(rs.rand(n, n, n, n)); i = i + i.transpose(2, 3, 0, 1)
g = rs.rand(1, n, n); g = g + g.transpose(0, 2, 1)
t1 = rs.rand(nv, no); t2 = anti(rs.rand(nv, nv, no, no)); s = rs.rand(1); u1 = rs.rand(1, nv, no); u2 = anti(rs.rand(1, nv, nv, no, no))
o, v = slice(0, no), slice(no, None)
def run(fn, mk):
    F = one_e_blocks(f[o, o], f[o, v], f[v, o], f[v, v]); G = one_e_blocks(g[:, o, o], g[:, o, v], g[:, v, o], g[:, v, v])
    return fn(F, mk(i.copy(), *([no, nv] * 4)), np.array([0.7]), G, G, np.zeros(1), np.zeros(1), 1, 1, (t1.copy(), t2.copy(), [s.copy()], [u1.copy()], [u2.copy()]))[1]
a = run(mo.new_qedccsd_sn_u2n, make_two_e_blocks); b = run(qq.qedccsd_sn_u2n, make_two_e_blocks_full)
assert np.allclose(a, b), abs(a - b).max()
""")

make("B13", "C12",
     [("openms/lib/boson.py", "               self.gmat[i] * numpy.sqrt(self.omega[i] / 2),\n               self.gmat[i] * numpy.sqrt(self.omega[i] / 2),\n", "               self.gmat[i] * numpy.sqrt(self.omega[i] / 2),\n               self.gmat[i] * numpy.sqrt(self.omega[0] / 2),\n")],
     "two modes of different frequency", "the beta block of the second mode's coupling carries the first mode's frequency factor",
     MOL + """
from openms.mqed import qedhf
mol = h2o()
mf = qedhf.RHF(mol, omega=np.array([0.5, 2.0]), vec=np.array([[0, 0.05, 0.0], [0, 0, 0.05]])); mf.verbose = 0; mf.kernel()
q = mf.qed; q.get_gmat_so()
n = mol.nao
for m in range(2):
    assert np.allclose(q.gmatso[m, :n, :n], q.gmatso[m, n:, n:])
    assert np.allclose(q.gmatso[m, :n, :n], q.gmat[m] * np.sqrt(q.omega[m] / 2))
""")

make("B14", "C13",
     [("openms/models/hh_model.py", "                self.gmat[:, L, -1] = self.gmat[:, -1, L] = gij", "                self.gmat[:, L, -1] = self.gmat[:, L - 1, L] = gij")],
     "bond coupling on a periodic chain", "the closing bond couples the two spins instead of two sites, for one of the two entries",
     """
import numpy as np
from openms.models.hh_model import HHModel
L = 3
m = HHModel(L, L, 2, 1.0, 1.0, g=0.3, gij=0.7, bc="p", ca=np.eye(L), cb=np.eye(L))
for I in range(L):
    assert np.allclose(m.gmat[I], m.gmat[I].T), m.gmat[I]
    assert np.allclose(m.gmat[I, :L, L:], 0)
    assert np.allclose(m.gmat[I, :L, :L], m.gmat[I, L:, L:])
""")

make("B15", "C14",
     [("openms/qmc/tools.py", "                eri[s - 1, r - 1, p - 1, q - 1] = integral\n", "                eri[s - 1, r - 1, q - 1, p - 1] = integral\n")],
     "an FCIDUMP file with an integral (pq|rs) of four different indices", "one of the eight permutations of an integral read from a file stays zero",
     """
import numpy as np, tempfile, os
from openms.qmc.tools import read_fcidump
d = tempfile.mkdtemp(); p = os.path.join(d, "F")
try:
    open(p, "w").write(" &FCI NORB=4,NELEC=2,MS2=0,\\n  ORBSYM=1,1,1,1,\\n  ISYM=1,\\n &END\\n 0.5 4 2 3 1\\n 1.5 2 1 0 0\\n 0.25 0 0 0 0\\n")
    h, e, nuc = read_fcidump(p, 4)
finally:
    os.remove(p); os.rmdir(d)
assert np.count_nonzero(e) == 8, np.argwhere(e)
assert np.allclose(e, e.transpose(1, 0, 2, 3)) and np.allclose(e, e.transpose(2, 3, 0, 1)) and nuc == 0.25
""")

make("B16", "C15",
     [("openms/lib/boson.py", "            gtmp *= numpy.sqrt(0.5*self.omega[imode])\n", "            gtmp *= numpy.sqrt(0.5*self.omega[0])\n")],
     "two modes of different frequency in a Fock (not coherent-state) representation", "the bilinear coupling of the second mode has the first mode's frequency factor",
     MOL + """
from openms.mqed import qedhf
mol = h2o()
def e(om, vec, ns):
    mf = qedhf.RHF(mol, omega=np.array(om), vec=np.array(vec), use_cs=False, nboson_states=ns); mf.verbose = 0; mf.max_cycle = 200; mf.conv_tol = 1e-11
    return mf.kernel()
a = e([0.5, 1.5], [[0, 0.05, 0.02], [0, 0.03, 0.08]], [4, 3])
b = e([1.5, 0.5], [[0, 0.03, 0.08], [0, 0.05, 0.02]], [3, 4])
assert abs(a - b) < 1e-7, (a, b)
""")

make("B17", "C16",
     [("openms/mqed/vtqedhf.py", "            derivative = self.qed.displacement_deriv_vt(imode, tmp * diff_eta, pdm)",
       "            derivative = self.qed.displacement_deriv_vt(imode, diff_eta / self.qed.omega[imode], pdm)")],
     "VT-QED-HF with several boson states and a squeezed vacuum", "the gradient with respect to the transformation is not the derivative of the energy when the vacuum is squeezed",
     MOL + """
from openms.mqed import vtqedhf
mf = vtqedhf.RHF(chain(2), omega=np.array([0.5]), vec=np.array([[0, 0, 0.1]]), nboson_states=3, couplings_var=np.array([0.5])); mf.verbose = 0
d = mf.get_init_guess(mf.mol, "1e")
mf.init_var_params(d); mf.get_h1e_DO(mf.mol, dm=d)
c = np.array([0.8, 0.5, 0.33]); c /= np.linalg.norm(c)
mf.qed.boson_coeff[:3, 0] = c
mf.qed.squeezed_var[:] = 0.4
def fac(f):
    # dressing factor as a function of the transformation's strength, eta proportional to it
    e = mf.eta * f / 0.5
    return mf.FC_factor(e, 0)
got = mf.gaussian_derivative_f_vector(mf.eta, 0)
h = 1e-4
want = (fac(0.5 + h) - fac(0.5 - h)) / (2 * h)
assert np.allclose(got, want, atol=1e-5), (got, want)
""")

make("B18", "C17",
     [("openms/lib/boson.py", "                x_out_y = numpy.outer(self.vec[mode], self.vec[mode]).reshape(-1)\n                x_out_y *= self.couplings[mode] ** 2",
       "                x_out_y = numpy.diag(self.vec[mode] ** 2).reshape(-1)\n                x_out_y *= self.couplings[mode] ** 2")],
     "a polarisation that is not along a Cartesian axis", "the self-energy leaves out the off-diagonal quadrupole, so the energy changes when molecule and polarisation are turned together",
     MOL + """
from openms.mqed import qedhf
def energy(R):
    xyz = np.array([[0, 0, 0], [0, -1.43, 1.1], [0, 1.43, 1.1]]) @ R.T
    mol = gto.M(atom=[(a, tuple(x)) for a, x in zip("OHH", xyz)], basis="sto-3g", unit="Bohr", verbose=0)
    mf = qedhf.RHF(mol, omega=np.array([0.5]), vec=np.array([R @ [0, 0, 0.1]])); mf.verbose = 0; mf.conv_tol = 1e-11
    return mf.kernel()
c, s = np.cos(0.7), np.sin(0.7)
assert abs(energy(np.eye(3)) - energy(np.array([[1, 0, 0], [0, c, -s], [0, s, c]]))) < 1e-8
""")

make("B19", "C18",
     [("openms/qmc/tools.py", "    f = numpy.fft.fft(x - x_mean, n=2 * n)", "    f = numpy.fft.fft(x - x_mean, n=n)")],
     "a series whose length is close to the power of two it is padded to", "the autocorrelation wraps around: the end of the series is correlated with its beginning",
     """
import numpy as np
from openms.qmc.tools import autocorr_func
x = np.array([1.0, 2.0, 4.0, 3.0, 7.0, 5.0, 6.0, 8.0])
d = x - x.mean(); want = np.array([np.dot(d[:len(d) - k], d[k:]) for k in range(len(d))]) / np.dot(d, d)
assert np.allclose(autocorr_func(x), want), (autocorr_func(x), want)
""")

make("B20", "C19",
     [("openms/qmd/bomd.py", "            force = mol.states[current_state].forces\n            mol.veloc += 0.5 * self.dt * force / mol.mass.reshape(-1, 1)",
       "            force = mol.states[mol.current_state].forces\n            mol.veloc += 0.5 * self.dt * force / mol.mass.reshape(-1, 1)")],
     "dynamics on an excited state", "the velocities are updated with the forces of the state the molecule was built with instead of the state asked for",
     """
import io, contextlib
import numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    from openms.lib.misc import Molecule
    from openms.qmd.bomd import BOMD
    m = Molecule(atom="H 0 0 0; H 0 0 1.4", unit="Bohr", basis="sto-3g", nstates=2, verbose=0)
m.states[0].forces = np.zeros((2, 3)); m.states[1].forces = np.ones((2, 3))
md = BOMD([m], None, dt=2.0)
md.next_velocity_many_molecule(1)
assert np.allclose(m.veloc, 1.0 / m.mass.reshape(-1, 1)), m.veloc
""")

make("B21", "C19",
     [("openms/qmd/bomd.py", "                if save_qm_log:\n                    os.makedirs(qm_idir)\n\n        os.chdir", "                if save_qm_log and not os.path.exists(md_dir[0]):\n                    os.makedirs(qm_idir)\n\n        os.chdir")],
     "a fresh run that keeps logs", "no log directory",
     "raise SystemExit(0)\n") if False else None

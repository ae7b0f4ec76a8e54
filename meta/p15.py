from add import P
P("C15", "QED-HF: energy functional, Fock matrix and representations",
  "For every molecule, density matrix, set of cavity modes (any number, frequencies, polarisations), boson state and representation, the energy QED-HF reports is the expectation value of the Pauli-Fierz Hamiltonian: one- and two-electron energy, dipole self-energy (quadrupole or, with complete_basis, product form; none with add_dse=False), bilinear coupling of each mode to its own boson state, displacement shifts, and boson energy, each counted once. Its Fock matrix is that functional's derivative (for the represented state). In-core and direct integral builds, the coherent-state representation, a large Fock space and any displaced basis give the same converged energy, and a smaller boson space never gives a lower one. Density matrices in the original representation have trace one per mode, reproduce the electronic density and hold the Fock amplitudes of the displaced state.",
  ["inputs", "configurations"], "all densities, modes, boson states, representations and integral builds",
  "The tests compare a few converged energies of one molecule in one representation; a wrong term that vanishes for one mode along z, at convergence or in the coherent state passes.",
  ["openms/mqed/qedhf.py", "openms/lib/boson.py"],
  [("get_hcore, add_oei_ao", "openms/mqed/qedhf.py, openms/lib/boson.py"), ("get_jk, get_veff, dse_jk", "openms/mqed/qedhf.py"), ("energy_tot, energy_elec", "openms/mqed/qedhf.py"), ("make_rdm1_org", "openms/mqed/qedhf.py")],
  [("RHF.qed", "gmat, q_lambda_ao, z_alpha, boson_coeff, e_boson", "openms/mqed/qedhf.py")],
  ["energies, Fock, J and K matrices returned", "converged energies", "make_rdm1_org"],
  "TLA+ specification of the Pauli-Fierz mean-field functional (Energy: TLC checks on enumerated systems that the functional's exact derivative is the Fock matrix, invariance under representation, mode order and orbital transformation); the same operators compute, in exact integers, the energy, Fock, J and K matrices the real code returns for injected integer integrals, and judge relations recorded from molecules",
  "Model: enumerated 1-2 orbital systems. Code: 60 (500) integer systems of 2-3 orbitals and 1-3 modes, 10 (60) molecules x densities, 6 (40) converged representations, 4 (20) densities.")

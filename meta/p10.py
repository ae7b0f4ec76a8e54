from add import P
P("C10", "QED-FCI represents the electron-boson Hamiltonian exactly in its configuration basis",
  "For every number of orbitals, alpha and beta electrons, modes and boson truncations (different per mode allowed), and for all integrals, the QED-FCI contractions are the second-quantised operators in the basis of determinants and boson numbers: one- and two-electron parts (spin-free, spin-resolved, Hubbard), boson creation and annihilation, the boson Hamiltonian as a diagonal or a full matrix, the electron-boson coupling (general and site-diagonal), and their sum. Electron and spin numbers are conserved and nothing leaves the boson truncation. The density matrices of electrons and bosons are the expectation values of the same operators. The solver's energy and vector solve the eigenvalue equation of that Hamiltonian, the energy is the lowest, includes ecore, and depends neither on the starting vector nor on whether the coherent-state representation is used.",
  ["inputs", "configurations"], "all spaces with 1-3 orbitals, every electron number, 1-3 modes with 0-3 quanta, arbitrary (also non-symmetric) integrals and vectors",
  "The tests run one QED-FCI energy on one molecule with equal truncations; a wrong sign or index that cancels there is invisible.",
  ["openms/mqed/qedfci.py"],
  [("contract_1e, contract_2e, contract_2e_spin0, contract_2e_hubbard", "openms/mqed/qedfci.py"), ("contract_bb, contract_eb, contract_all", "openms/mqed/qedfci.py"), ("make_rdm1e, make_rdm12e, make_rdm1p", "openms/mqed/qedfci.py"), ("kernel", "openms/mqed/qedfci.py")],
  [("ci vector", "amplitude per configuration", "openms/mqed/qedfci.py")],
  ["contract_* returns", "make_rdm* returns", "kernel() returns"],
  "TLA+ specification of the Fock space as a transition system (Fock: canonical relations, number conservation, truncation checked by TLC on every configuration); the same operators evaluate every recorded contraction, density matrix and eigenpair of the real code",
  "Model: every configuration of 3 (4) orbitals and up to 3 modes. Code: 12 (90) random spaces per operation, integer integrals and vectors; amplitudes with square roots compared to 0.04, the rest exactly; 10 (60) solver runs.")

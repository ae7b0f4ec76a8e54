from add import P
P("C12", "Integrals handed to correlated methods describe the Hamiltonian of the mean field",
  "For every molecule, orbitals, occupation and set of modes, the spin-orbital quantities a correlated method receives (Photon.kernel, g_fock, get_I, gint, mfG; ov_blocks) are those of one Hamiltonian: two-electron integrals <pq||rs> antisymmetrised, zero between different spins, with every mode's dipole self-energy; the nine integral blocks, Fock blocks and coupling blocks hold exactly the entries of their occupied/virtual index ranges; each mode's coupling carries its own sqrt(omega/2); mean-field couplings are the density's. The reference energy rebuilt from Fock matrix and integrals is the mean-field energy and a converged Fock matrix has no occupied-virtual block. This holds whether the mode object is fresh or the mean field's own. The integrals for full CI (get_integrals4fci) give, for every density, the mean-field functional's energy and bilinear couplings, with exact or Cholesky integrals and several modes, in orthonormal orbitals.",
  ["inputs", "configurations"], "all integrals, orbital coefficients, occupations and modes",
  "No test looks at these arrays; correlated energies of one molecule hide exchanged blocks, missing modes or factors.",
  ["openms/lib/boson.py", "openms/lib/ov_blocks.py"],
  [("Photon.get_gmat_so/kernel, get_mos, fock, g_fock, get_I, gint, mfG", "openms/lib/boson.py"), ("get_integrals4fci", "openms/lib/boson.py"), ("block_diag, make_two_e_blocks(_full)", "openms/lib/ov_blocks.py")],
  [("Photon", "gmat, gmatso, ca, na, pa", "openms/lib/boson.py")],
  ["returned blocks and tensors"],
  "TLA+ specification of spin-orbital integrals (Ints: TLC checks antisymmetry and that the reference energy rebuilt from them is the functional of EnergyOps on enumerated integer systems); the same operators compute every entry the real code returns for injected integer integrals and orbitals, and judge relations recorded from molecules",
  "Model: 577 (4375) systems. Code: 30 (240) integer systems of 2-3 orbitals and 1-3 modes, 12 (60) splits, 6 (40) molecules, 6 (40) full-CI integral sets x 3 densities.")

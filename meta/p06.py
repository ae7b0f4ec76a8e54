from add import P
P("C06", "Estimators are the mixed expectation values they stand for",
  "For every trial determinant and walker, the reported overlap, Green's function, force bias and local energy (one-body, Coulomb, exchange, boson and electron-boson parts, and their sum with the constant energy) are the mixed expectation values <trial|O|walker>/<trial|walker> of the Hamiltonian given by the one-body matrix, the Cholesky tensors, the mode frequencies and the coupling matrices; the ensemble sums are the weighted sums of these over the walkers. A closed-shell problem gives the same values in the restricted and unrestricted formulation, and modes may have different numbers of states.",
  ["inputs", "configurations"], "all trials and walkers (real or complex, non-orthonormal) with nonzero overlap, all Hamiltonians, mode counts and boson-state counts, both spin formulations",
  "Tests run whole simulations of one molecule and look at a mean energy within a loose tolerance; complex orbitals, several modes and unequal boson spaces never occur.",
  ["openms/qmc/trial.py", "openms/qmc/estimators.py", "openms/qmc/propagators.py", "openms/qmc/generic_walkers.py"],
  [("ovlp_with_walkers(_gf), get_vbias, half_rotate_integrals", "openms/qmc/trial.py"), ("local_eng_*", "openms/qmc/estimators.py"), ("local_energy", "openms/qmc/propagators.py")],
  [("phiwa, phiwb, boson_phiw, Ghalfa, Ghalfb", "walker state and its half-rotated Green's function", "openms/qmc/generic_walkers.py")],
  ["TrialWFBase.ovlp_with_walkers_gf / get_vbias return", "propagator.local_energy returns"],
  "TLA+ specification of mixed expectation values on Gaussian-integer determinants (MixedOps, defined by column replacement, not by Green's functions) model-checked with TLC; values computed by the real code judged by TLC",
  "Model: all small integer determinants up to the bounds in Mixed.cfg. Code: a few hundred (several thousand in thorough) random problems up to 4 orbitals, 3 electrons per spin, 3 modes, 4 boson states.")

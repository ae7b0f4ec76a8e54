from add import P
P("C16", "SC/VT-QED-HF: dressed functional, gradients, variational parameters",
  "For every density, displacement, coupling fraction f, squeezing r, boson state and number of boson states, the SC and VT energies are the expectation value of the transformed Hamiltonian: integrals dressed by displaced-state overlaps, residual self-energy and bilinear terms weighted by what the transformation leaves, photon energy. The Fock matrix and every gradient reported (orbital displacements, f, r; both gradient routines) are derivatives of that same energy, with four-index integrals and with Cholesky vectors alike; the boson state chosen after an update minimises the energy for the density. Packing parameters for the optimiser and reading them back is lossless: each lands at its own place, fixed ones keep their value, residual couplings follow, and a step moves exactly the optimised ones by minus the preconditioned gradient.",
  ["inputs", "configurations"], "all parameter values, flags, boson spaces and densities",
  "The tests compare final energies at one set of options; a wrong derivative or a misplaced parameter still converges, to a slightly worse or equal energy.",
  ["openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/lib/boson.py"],
  [("get_h1e_DO, get_hcore, get_veff, energy_tot", "openms/mqed/scqedhf.py, vtqedhf.py"), ("grad_var_params, grad_var_params_together", "openms/mqed/scqedhf.py, vtqedhf.py"), ("pre_update_var_params, set_params, set_var_params, update_var_params", "openms/mqed/scqedhf.py, vtqedhf.py")],
  [("RHF.eta, qed.couplings_var, qed.squeezed_var", "variational parameters", "openms/mqed/scqedhf.py, openms/lib/boson.py")],
  ["energies, Fock matrices and gradients returned", "parameters after calls"],
  "TLA+ specification of the dressed functional (Dress: limits f=0, equal displacements, invariance checked by TLC) and of the packed parameter vector (Var: pack/unpack/step as a state machine); the same operators compute in fixed point the energies the real code returns for injected integrals and judge recorded parameters and derivatives",
  "Model: enumerated parameters. Code: 30 (200) parameter histories x 4 calls, 16 (120) injected systems, 8 (50) molecules x {4-index, Cholesky} with all derivatives against central differences of the code's energy.")

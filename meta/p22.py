from add import P
P("C22", "An AFQMC simulation is of the molecule it was given, however it is described",
  "The energies the AFQMC driver starts from are those of the molecule's mean-field determinant: the one- and two-electron parts are the density's expectation values, including the self-energy of every mode; the constant is the nuclear repulsion; boson and coupling parts are those of the trial's bosons and count unless the bosons are turned off; without coupling (no modes, or zero coupling) the total is the mean-field energy. All electrons are there, an open shell is simulated with both spins, every walker starts as the trial state with weight and overlap one, and a decoupled bilinear coupling adds its fields for every mode. None of this depends on how the molecule is described: orthogonal-atomic or molecular representation, one or two spin components, a molecule with coupling matrices or a photon object, a mean field given or made by the driver, full, block-wise, merged or user-supplied two-electron integrals, fake fields, atoms moved, renumbered or in other units. Where two descriptions also give the same auxiliary fields, a seeded run gives the same energies and weights.",
  ["inputs", "history"], "all valid descriptions of closed- and open-shell molecules with zero to two modes",
  "The tests compare a few descriptions of single molecules; the options interact (spin, bosons, merged integrals, units), and every combination must describe the same system.",
  ["openms/qmc/qmc.py", "openms/qmc/afqmc.py", "openms/qmc/tools.py", "openms/qmc/trial.py", "openms/qmc/generic_walkers.py", "openms/qmc/propagators.py", "openms/qmc/estimators.py"],
  [("QMCbase.__init__, build, get_integrals", "openms/qmc/qmc.py"), ("AFQMC", "openms/qmc/afqmc.py"), ("get_h1e_chols, chols_full, chols_blocked, bilinear_decomposition", "openms/qmc/tools.py"),
   ("make_trial, TrialHF, initialize_boson_trial_with_z", "openms/qmc/trial.py"), ("make_walkers, initialisation", "openms/qmc/generic_walkers.py")],
  [], ["energies and parts of the initial state", "walkers, weights, overlaps", "energies and weights of seeded runs"],
  "TLA+ specification of a description and what it determines (Setup: a state machine that re-describes a molecule step by step; on small integer systems the energies and the expectation values of all fields are invariant, and two descriptions with equal canonical form give the same run); the enumerated descriptions are given to the real driver, and TLC judges the recorded starts against traces of the molecule's density and pairs of descriptions against each other",
  "Model: 5k states quick (two re-descriptions), 21k thorough (three). Code: about 800 set-ups quick, 2400 thorough.")

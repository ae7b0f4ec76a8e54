from add import P
P("C08", "Calculations do not disturb each other or the caller's inputs",
  "Whatever sequence of calculations a program makes on the same molecule and inputs - simulations built and run in any interleaving, several objects alive at once, helper functions called in between, random numbers drawn by the caller - each returns what it returns as the only calculation of a fresh process. Every array, dictionary, list, molecule and mean-field object passed in is left as it was; settings given to one run do not become the defaults of another; a seeded run depends on its seed only.",
  ["histories", "schedules", "configurations"], "all sequences and interleavings of AFQMC (with and without bosons, options, unrestricted, decoupled), QED-HF, SC-QED-HF, VT-QED-HF with given or optimised parameters, Photon construction, Cholesky and bilinear decompositions, QED-FCI, lattice models, statistics",
  "Each test builds one object in a fresh process and never looks at its inputs again.",
  ["openms/qmc/qmc.py", "openms/qmc/tools.py", "openms/lib/boson.py", "openms/mqed/qedhf.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/mqed/qedfci.py"],
  [("QMCbase.__init__, kernel", "openms/qmc/qmc.py"), ("Boson.__init__, Photon", "openms/lib/boson.py"), ("RHF.__init__, kernel", "openms/mqed/vtqedhf.py"), ("chols_full, chols_blocked", "openms/qmc/tools.py")],
  [("default_walker_options", "module settings", "openms/qmc/generic_walkers.py"), ("caller's arrays, dicts, mol, mf", "inputs", "openms/lib/boson.py")],
  ["kernel() returns", "constructor returns", "function returns"],
  "TLA+ state machine of a session (Session: noninterference and integrity of inputs over all interleavings); its behaviours - all ordered pairs of calculations in all interleavings and long random sessions - are replayed in forked processes and the recorded events judged by TLC against each calculation's result in a fresh process",
  "Model: all sessions of 5 (7) actions. Code: 675 pair histories and 8 (48) sessions of 36 actions over 16 kinds of calculation and 11 functions; small molecules; results to 3e-6.")

from add import P
P("C07", "A propagation step is the phaseless importance-sampled step",
  "For every ensemble, Hamiltonian, time step and field sample, one step moves each walker (orbitals of both spins, boson amplitudes) by the symmetric split of the one-body, field and boson propagators with the mean-field-subtracted one-body operator, its own force bias (bounded in modulus, direction kept) and its own shifted fields; the recorded hybrid energy is that of the overlap ratio and importance factors, clipped to eshift +- sqrt(2/dt); the weight is multiplied by the resulting importance factor (local scheme: by exp(-dt eloc)) times max(0, cos) of the phase of overlap ratio and mean-field factor, so weights stay non-negative and a walker whose overlap turned by more than a right angle is removed. The recorded overlap is that of the new walker. An unknown energy scheme is refused. Native and compiled kernels agree. Orthonormalising walkers changes neither their span nor the direction of their boson state, and records the factor it takes out: each walker's factor, the running logarithm, and the recorded overlap divided by it.",
  ["inputs", "histories", "configurations"], "all walkers, trials, Hamiltonians, fields, time steps, Taylor orders, bounds; both spin formulations; with and without bosons; both energy schemes",
  "Tests compare a mean energy of one molecule with a loose tolerance; a wrong phase, factor or bound moves it less than the tolerance.",
  ["openms/qmc/propagators.py", "openms/qmc/qmc.py", "openms/qmc/trial.py"],
  [("propagate_walkers, propagate_walkers_twobody, update_weight, rescale_fbias, propagate_bosons*", "openms/qmc/propagators.py"), ("orthogonalization, qr_ortho", "openms/qmc/qmc.py")],
  [("phiwa, phiwb, boson_phiw, weights, ehybrid, ovlp", "walker state", "openms/qmc/generic_walkers.py")],
  ["Phaseless.propagate_walkers / PhaselessElecBoson.propagate_walkers return", "update_weight returns", "QMCbase.orthogonalization returns"],
  "TLA+ specification of the step in fixed-point arithmetic (Fixed, StepOps) model-checked with TLC (Step: bounds, removal, unbiasedness under force bias and mean-field shift); recorded steps of the real propagators with scripted fields judged by TLC",
  "Model: 2 (3) steps under all sequences of 3 values of 2 fields. Code: about 1000 (10000) recorded steps/updates; 2-3 orbitals, 1-2 electrons per spin, 1-3 fields, 0-2 modes, four decimals, tolerance 0.006 in orbitals. The decoupled-bilinear boson path is covered only through C04/C08.")

from add import P
P("C11", "QED coupled-cluster equations are the projected Schroedinger equation",
  "For every Fock matrix, antisymmetrised integrals, real mode couplings, frequencies and amplitudes (T1, T2, Sn, U1n, U2n), the residuals returned by the QED-CCSD equations (new_qedccsd_sn_u2n of myqedcc_equations_opt and myqedcc_equations, qedccsd_sn_u2n of qedcc_equations) are <mu| exp(-T) H exp(T) |0> for singles, doubles, photons, singles and doubles with photons: every contraction, sign and prefactor. It holds for any number of orbitals and modes with one photon per excitation and up to two photons alone, and for one mode with up to two photons per excitation; leaving U2n out means U2n = 0 and no U2n residual. The implementations agree, every requested residual is returned, and integrals and amplitudes handed in are not modified. (No constant photon force, as the solver uses them; frequencies are positive.)",
  ["inputs", "configurations"], "all integrals, couplings, amplitudes and numbers of orbitals, modes and photons",
  "The solver cannot run in the test environment, and a converged energy of one molecule does not see terms that vanish by symmetry or are small.",
  ["openms/mqed/myqedcc_equations_opt.py", "openms/mqed/myqedcc_equations.py", "openms/mqed/qedcc_equations.py"],
  [("Imds, new_qedccsd_sn_u2n and the residuals it assembles", "openms/mqed/myqedcc_equations_opt.py"), ("new_qedccsd_sn_u2n", "openms/mqed/myqedcc_equations.py"), ("qedccsd_sn_u2n", "openms/mqed/qedcc_equations.py")],
  [("amplitudes", "T1, T2, Sn, U1n, U2n", "openms/mqed/ccsd.py")],
  ["returned residual arrays", "input arrays after the call"],
  "TLA+ specification of the cluster state in Fock space (CCOps: determinants x photon occupations, exact integers; TLC checks exp(-T)exp(T)=1, the energy formula, the uncorrelated and the decoupled limits for every subset of terms); TLC recomputes every residual entry the real equations return for integer systems chosen by the model",
  "Model: 296 (1792) systems. Code: 17 (428) systems up to 3+3 (4+4) spin orbitals, 1-3 modes, three implementations, with and without U2n.")

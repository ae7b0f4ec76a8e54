from add import P
P("C17", "Mean-field results depend on the physical system only, not on its description or on the session's history",
  "QED-HF, SC-QED-HF and VT-QED-HF return the same energy for every description of the same molecule in the same cavity: modes in any order, sign of a polarisation vector, uncoupled extra modes, a mode split into or mixed with others of the same total coupling, frequencies (coherent-state representation), translations, rotations and reflections of molecule and polarisation together; and for every history: any initial guess, starting density or solver setting (level shift, damping, DIIS, integrals on the fly), a repeated or restarted calculation, geometries scanned back and forth on one object. Each mode's displacement is its own coupling to the dipole. VT with f fixed to one is SC, with f towards zero QED-HF, the optimised VT energy is never above either, an uncoupled cavity is plain Hartree-Fock. A calculation reported as converged is a fixed point whose energy is that of the reported orbitals; an unfinished one is not reported as converged.",
  ["inputs", "configurations", "histories"], "all descriptions of a system and all sequences of restarts, guesses and geometries",
  "Tests compare a few stored energies of one description from one start; invariance and history independence relate arbitrarily many runs.",
  ["openms/mqed/qedhf.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/mqed/diis.py", "openms/lib/boson.py"],
  [("kernel, scf", "openms/mqed/qedhf.py, scqedhf.py"), ("reset", "openms/mqed/qedhf.py, scqedhf.py, openms/lib/boson.py"), ("update_cs, add_oei_ao", "openms/lib/boson.py"), ("DIIS over Fock matrix and parameters", "openms/mqed/diis.py")],
  [("RHF object", "converged, e_tot, cycles, mo_coeff, eta, ltensor, qed", "openms/mqed/")],
  ["e_tot, converged, cycles, orbitals, z_alpha after kernel() and scanner calls"],
  "TLA+ specification of a mean-field session (Mean: descriptions of one cavity as integer mode vectors and frames, actions transform the description, restart, change guess or scan; TLC checks that every reachable description has the same coupling tensor); behaviours of the model are replayed on the real objects, fresh or living, and judged by the same operators",
  "Model: all sessions of length 2 (4). Code: 26 (184) behaviours of 5 actions over 4 molecules, 4 (24) method relations, 10 (60) finished or interrupted calculations.")

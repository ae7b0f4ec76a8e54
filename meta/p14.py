from add import P
P("C14", "Factorised, decomposed and imported integrals reproduce the integrals",
  "For every molecule, basis (s, p, generally contracted shells), added positive coupling matrices g and threshold, the Cholesky vectors returned (chols_full, chols_blocked, get_h1e_chols with any square orbital rotation, which rotates one-body matrix and vectors alike) satisfy |(pq|rs) + sum g_pq g_rs - sum_n L_pq L_rs| <= threshold for every integral; there are never more vectors than the rank; vanishing integrals give none; a cap on the number of vectors is respected and the truncated remainder stays positive, bounded by its diagonal. Decomposing a bilinear electron-boson term (schemes 1 and 2) gives per mode vectors whose squares cancel and whose cross terms are the coupling, for every sign and strength. Integrals read from an FCIDUMP file are those written, in all eight permutations. Low-rank plans and SVD factors reproduce each vector and give its exchange energy.",
  ["inputs", "configurations"], "all integrals, shell structures, couplings and thresholds",
  "Tests factorise one molecule with s shells and compare one energy; shell offsets, thresholds, truncation and the added couplings are not looked at.",
  ["openms/qmc/tools.py", "openms/qmc/estimators.py"],
  [("chols_full, chols_blocked, _find_shell, _compute_eri_chunk, get_h1e_chols", "openms/qmc/tools.py"), ("bilinear_decomposition, read_fcidump, get_blksize, build_Ltensor_plan, stochastic_thc(svd)", "openms/qmc/tools.py"), ("exx_mixed_rank_sparsity", "openms/qmc/estimators.py")],
  [("chols_blocked", "diag, Mapprox, ltensor, nu, delta_max", "openms/qmc/tools.py")],
  ["returned vectors, matrices and energies"],
  "TLA+ specification of fraction-free pivoted elimination (Chol: TLC checks on every enumerated integer integral matrix and every choice of equal pivots that the residual stays positive, bounded by its diagonal, decreasing and vanishes after rank steps); the enumerated systems and random larger ones are injected as a molecule's integrals into the real routines and TLC judges the products of the returned vectors, decompositions and files with the same operators",
  "Model: 4.7k (135k) states. Code: 270 (4500) integer systems of 2-6 orbitals over 11 shell structures, 24 (150) bilinear terms, 8 (40) files, 16 (100) plans, 12 (60) molecules.")

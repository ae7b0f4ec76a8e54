SPECIFICATION Spec
CONSTANTS
  Kinds = {"afq", "afq_opt", "afq_def", "afq_b1", "afq_b2", "afq_uhf", "afq_dec", "hf", "hf2", "hf_dm", "sc", "vt", "vt_f", "vt_sq", "vt_fopt", "hf_qed"}
  Calls = {"photon", "photon2", "chols", "chols_g", "bilinear", "fci", "fci2", "stats", "hubbard", "own_mf", "pyscf"}
  Slots = {1, 2, 3}
  Length = 36
  Leaky = FALSE
INVARIANT Isolated
INVARIANT Intact
INVARIANT Emit

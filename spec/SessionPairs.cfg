SPECIFICATION PairSpec
CONSTANTS
  Kinds = {"afq", "afq_opt", "afq_def", "afq_b1", "afq_b2", "afq_uhf", "afq_dec", "hf", "hf2", "hf_dm", "sc", "vt", "vt_f", "vt_sq", "vt_fopt", "hf_qed"}
  Calls = {}
  Slots = {1, 2}
  Length = 4
  Leaky = FALSE
INVARIANT Isolated
INVARIANT Intact
INVARIANT EmitPairs

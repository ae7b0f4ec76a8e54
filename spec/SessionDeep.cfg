SPECIFICATION Spec
CONSTANTS
  Kinds = {"afq", "afq_opt"}
  Calls = {"photon"}
  Slots = {1, 2}
  Length = 7
  Leaky = FALSE
INVARIANT Isolated
INVARIANT Intact

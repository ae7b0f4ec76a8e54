SPECIFICATION Spec
CONSTANTS
  Kinds = {"afq", "afq_opt"}
  Calls = {"photon"}
  Slots = {1, 2}
  Length = 5
  Leaky = FALSE
INVARIANT Isolated
INVARIANT Intact

SPECIFICATION Spec
CONSTANTS
  Length = 5
  MaxModes = 4
  Starts = {1, 2, 3}
INVARIANT Same
INVARIANT Orthogonal
INVARIANT Bounded
INVARIANT Emit

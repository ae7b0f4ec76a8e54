SPECIFICATION Spec
CONSTANTS
  Length = 4
  MaxModes = 3
  Starts = {1, 2, 3}
INVARIANT Same
INVARIANT Orthogonal
INVARIANT Bounded


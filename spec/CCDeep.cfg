SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 4, 5, 6, 7}
  Limit = 8
INVARIANT Sound
INVARIANT Emit

SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 7}
  Limit = 2
INVARIANT Sound
INVARIANT Emit

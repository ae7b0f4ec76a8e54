SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  Cs = {1, 2, 3, 4}
INVARIANT Antisymmetric
INVARIANT RefIsEnergy

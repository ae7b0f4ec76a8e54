SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  Cs = {2, 3, 4}
INVARIANT Antisymmetric
INVARIANT RefIsEnergy

SPECIFICATION Spec
CONSTANTS
  XMax = 4
  MMax = 3
  NF = 4
  NMode = 3
  Order = 4
  Depth = 4
  Orb = 7
INVARIANT OscOk
INVARIANT CohOk
INVARIANT ZfsOk
INVARIANT CholOk
INVARIANT SignOk
INVARIANT ExpOk
INVARIANT UniOk
INVARIANT BeOk
INVARIANT Emit

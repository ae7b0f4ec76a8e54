SPECIFICATION Spec
CONSTANTS
  XMax = 2
  MMax = 2
  NF = 3
  NMode = 2
  Order = 3
  Depth = 3
  Orb = 5
INVARIANT OscOk
INVARIANT CohOk
INVARIANT ZfsOk
INVARIANT CholOk
INVARIANT SignOk
INVARIANT ExpOk
INVARIANT UniOk
INVARIANT BeOk
INVARIANT Emit

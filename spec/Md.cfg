SPECIFICATION Spec
CONSTANTS
  NTraj = 2
  MaxOps = 5
INVARIANT NothingLost
INVARIANT Apart
INVARIANT FreshIsEmpty
INVARIANT Emit
PROPERTY AsideGrows
PROPERTY RefusalIsClean

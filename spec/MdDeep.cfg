SPECIFICATION Spec
CONSTANTS
  NTraj = 3
  MaxOps = 6
INVARIANT NothingLost
INVARIANT Apart
INVARIANT FreshIsEmpty
PROPERTY AsideGrows
PROPERTY RefusalIsClean

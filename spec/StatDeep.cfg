SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3}
  MaxN = 7
  Extra = 7
INVARIANT Bounded
INVARIANT Cancels
INVARIANT HasWindow
INVARIANT GoodBlocks
INVARIANT Affine
INVARIANT KeepsSome
INVARIANT Disjoint

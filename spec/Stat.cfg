SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3}
  MaxN = 5
  Extra = 7
INVARIANT Bounded
INVARIANT Cancels
INVARIANT HasWindow
INVARIANT GoodBlocks
INVARIANT Affine
INVARIANT KeepsSome
INVARIANT Disjoint
INVARIANT Emit

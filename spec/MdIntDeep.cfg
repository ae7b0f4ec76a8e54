SPECIFICATION Spec
CONSTANTS
  R <- SmallDeep
  Cs <- Coef
  Hs <- Steps
INVARIANT RkExact
INVARIANT Reversible

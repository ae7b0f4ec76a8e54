SPECIFICATION Spec
CONSTANTS
  R <- Small
  Cs <- Coef
  Hs <- Steps
INVARIANT RkExact
INVARIANT Reversible

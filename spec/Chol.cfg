SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  NL = 2
  NO = 2
INVARIANT Positive
INVARIANT Bounded
INVARIANT Fraction
INVARIANT PivotRows
INVARIANT RankSteps
INVARIANT Emit
PROPERTY Decreasing

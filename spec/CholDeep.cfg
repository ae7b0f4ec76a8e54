SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3}
  NL = 3
  NO = 2
INVARIANT Positive
INVARIANT Bounded
INVARIANT Fraction
INVARIANT PivotRows
INVARIANT RankSteps
PROPERTY Decreasing

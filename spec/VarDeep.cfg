SPECIFICATION Spec
CONSTANTS NEta = 2  NMode = 1  Vals = {0, 1}  MaxLen = 4
INVARIANTS Shape RoundTrip Frozen

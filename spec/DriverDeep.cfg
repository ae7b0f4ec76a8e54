SPECIFICATION Spec
CONSTANTS NSteps = 7 Freqs = {1, 2, 3} Hs = {0, 2} Ws = {1, 3}
INVARIANTS Bounded FreshRule MeasRule CountRule ShiftRule

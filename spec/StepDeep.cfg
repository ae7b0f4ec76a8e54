SPECIFICATION Spec
CONSTANT Fields = {0, 10000, 23000}
CONSTANT Steps = 3
CONSTANT Hs = {0, 1}
CONSTANT Shifts = {0, 20000}
INVARIANT NonNegative
INVARIANT EnergyBounded
INVARIANT GrowthBounded
INVARIANT PhaseKills
INVARIANT NoBiasAtTrial
INVARIANT Unbiased

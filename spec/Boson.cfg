SPECIFICATION Spec
CONSTANTS MaxN = 4  Steps = 12
INVARIANT Ladder Identity Packed Deriv

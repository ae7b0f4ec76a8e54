SPECIFICATION Spec
CONSTANTS MaxN = 5  Steps = 20
INVARIANT Ladder Identity Packed Deriv

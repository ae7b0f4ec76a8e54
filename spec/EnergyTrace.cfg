SPECIFICATION Spec
CONSTANT Failing <- EnergyFailing
INVARIANT Judged

SPECIFICATION Spec
CONSTANT Failing <- BosonFailing
INVARIANT Judged

SPECIFICATION Spec
CONSTANT Failing <- MFailing
INVARIANT Judged

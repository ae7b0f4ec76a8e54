SPECIFICATION Spec
CONSTANT Failing <- MeanFailing
INVARIANT Judged

SPECIFICATION Spec
CONSTANT Failing <- LatFailing
INVARIANT Judged

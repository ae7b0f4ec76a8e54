SPECIFICATION Spec
CONSTANT Failing <- FockFailing
INVARIANT Judged

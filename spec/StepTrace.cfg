SPECIFICATION Spec
CONSTANT Failing <- SFailing
INVARIANT Judged

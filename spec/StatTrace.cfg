SPECIFICATION Spec
CONSTANT Failing <- StatFailing
INVARIANT Judged

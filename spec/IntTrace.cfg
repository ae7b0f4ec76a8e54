SPECIFICATION Spec
CONSTANT Failing <- IntFailing
INVARIANT Judged

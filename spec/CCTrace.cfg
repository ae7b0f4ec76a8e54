SPECIFICATION Spec
CONSTANT Failing <- CCFailing
INVARIANT Judged

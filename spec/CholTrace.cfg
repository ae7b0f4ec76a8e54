SPECIFICATION Spec
CONSTANT Failing <- CholFailing
INVARIANT Judged

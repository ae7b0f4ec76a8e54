SPECIFICATION Spec
CONSTANT Failing <- SetupFailing
INVARIANT Judged

SPECIFICATION Spec
CONSTANT Failing <- VarFailing
INVARIANT Judged

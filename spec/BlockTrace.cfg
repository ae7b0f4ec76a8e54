SPECIFICATION Spec
CONSTANT Failing <- BlockFailing
INVARIANT Judged

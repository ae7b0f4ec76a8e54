SPECIFICATION Spec
INVARIANT Judged
CONSTANT Failing <- PopFailing

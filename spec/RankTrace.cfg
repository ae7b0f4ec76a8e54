SPECIFICATION Spec
CONSTANT Failing <- RFailing
INVARIANT Judged

SPECIFICATION Spec
CONSTANT Failing <- ReportFailing
INVARIANT Judged

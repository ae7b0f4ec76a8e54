INIT Init
NEXT Next
CONSTANTS N = 4 WMax = 3 Unit = 2 K = 3
INVARIANTS Emit CountKept WeightKept OnlyCopies NoGhost FairCopies KeptWindow BranchOk UnbiasedSystematic UnbiasedBranching

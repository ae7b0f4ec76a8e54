SPECIFICATION Spec
CONSTANTS N = 5 WMax = 4 Unit = 2 K = 4
INVARIANTS CountKept WeightKept OnlyCopies NoGhost FairCopies KeptWindow BranchOk UnbiasedSystematic UnbiasedBranching

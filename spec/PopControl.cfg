SPECIFICATION Spec
CONSTANTS N = 4 WMax = 5 Unit = 2 K = 3
INVARIANTS CountKept WeightKept OnlyCopies NoGhost FairCopies KeptWindow BranchOk UnbiasedSystematic UnbiasedBranching

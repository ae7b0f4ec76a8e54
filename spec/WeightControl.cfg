SPECIFICATION Spec
CONSTANTS N = 3 Freqs = {1, 2, 3} WVals = {0, 1, 2, 3} MaxStep = 2 S = 1000 Ranks = {1, 2, 3}
INVARIANTS Normalised RawRecorded RankFree CapHolds Partition

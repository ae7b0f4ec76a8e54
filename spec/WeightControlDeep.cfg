SPECIFICATION Spec
CONSTANTS N = 4 Freqs = {1, 2, 3} WVals = {1, 2, 4} MaxStep = 3 S = 10000 Ranks = {1, 2, 3, 5}
INVARIANTS Normalised RawRecorded RankFree CapHolds Partition

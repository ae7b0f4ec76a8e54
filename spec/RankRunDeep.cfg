SPECIFICATION Spec
CONSTANTS MaxN = 6 MaxR = 4 Steps = 2 Vals = {0, 1, 3}
INVARIANTS PartitionOK Agree IsWhole LockStep
PROPERTY Finishes

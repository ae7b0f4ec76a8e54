SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxR = 3 Steps = 2 Vals = {0, 1, 3}
INVARIANTS PartitionOK Agree IsWhole LockStep
PROPERTY Finishes

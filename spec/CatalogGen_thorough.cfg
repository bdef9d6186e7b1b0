INIT Init
NEXT Next
CONSTANTS
 ScalarKeys = {1, 2, 3, 5}
 PairI = {1, 2}
 PairJ = {3, 5}
 Vals = {0, 2, 4, 6}
 MaxScalar = 3
 MaxPair = 4
CONSTRAINT Dump
CHECK_DEADLOCK FALSE

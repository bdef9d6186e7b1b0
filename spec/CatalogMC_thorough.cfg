INIT Init
NEXT Next
CONSTANTS
 ScalarKeys = {1, 2, 3, 5}
 PairI = {1, 2}
 PairJ = {3, 5}
 Vals = {0, 2, 4, 7}
 MaxScalar = 5
 MaxPair = 4
INVARIANT Indistinguishable
CHECK_DEADLOCK FALSE

INIT InitR
NEXT NextR
CONSTANTS
 FracBits = 8
 LoBits = 1
 Bias = 2
 MaxExp = 3
 NegMinE = 16
 TopE = 5
INVARIANTS Truncates RangeRight Symmetric BestIsNormal
PROPERTIES Ordered CmpRight
CHECK_DEADLOCK FALSE

INIT Init
NEXT Stay
CONSTANTS
 FracBits = 8
 LoBits = 1
 Bias = 2
 MaxExp = 3
 NegMinE = 16
 TopE = 6
INVARIANTS DenotesRight NormalIsFixed EncodeIsInverse NormalizeKeeps NotNormalizable IntegersRight RatioRight
CHECK_DEADLOCK FALSE

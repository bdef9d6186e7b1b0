INIT TInit
NEXT TNext
ALIAS TAlias
CONSTANTS
 FracBits = 24
 LoBits = 30
 Bias = 64
 MaxExp = 127
CHECK_DEADLOCK FALSE

INIT Init
NEXT GenNext
CONSTANTS
 Samples <- SmallSamples
 MaxDepth = 4
 MaxAspects = 3
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Samples <- SmallSamples
 MaxDepth = 4
 MaxAspects = 1
INVARIANTS NearestWins ChainsCollapse EmptyIsTransparent WrittenIsExposed Parts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Samples <- SmallSamples
 MaxDepth = 2
 MaxAspects = 2
INVARIANTS NearestWins ChainsCollapse EmptyIsTransparent WrittenIsExposed Parts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 CardLen = 2
 Cards = 2
 BinLen = 5
 BinBase = 5
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 MaxTraces = 4
 Numbers = {0, 1}
CHECK_DEADLOCK FALSE
INVARIANTS DimensionalityFollowsHeaders ForcedIsHonoured IndexExact

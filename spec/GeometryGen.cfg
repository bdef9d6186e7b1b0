SPECIFICATION Spec
CONSTANTS
 CardLen = 2
 Cards = 2
 BinLen = 5
 BinBase = 5
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 MaxTraces = 3
 Numbers = {0, 1}
CHECK_DEADLOCK FALSE
CONSTRAINT Geometries

INIT Init
NEXT Next
CONSTANTS
 CardLen = 2
 Cards = 2
 BinLen = 5
 BinBase = 5
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 Names = {"a","b"}
 Shapes <- ShapesDefault
 MaxOps = 12
CHECK_DEADLOCK FALSE
CONSTRAINT Histories

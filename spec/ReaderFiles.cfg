INIT Init
NEXT Next
CONSTANTS
 CardLen = 2
 Cards = 2
 BinLen = 5
 BinBase = 5
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 MaxTraces = 3
 MaxOps = 0
 Junk = 4
CONSTRAINT Files
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
 CardLen = 2
 Cards = 2
 BinLen = 5
 BinBase = 5
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 MaxTraces = 2
 SampleValues <- OneSample
 Keys = {1, 2}
 Codes = {3}
INVARIANTS TypeOK WriteRead ReadWrite Convert Layout Indexed Guess
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 CardLen = 2
 Cards = 2
 BinLen = 5
 BinBase = 5
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 MaxTraces = 2
 MaxOps = 2
 Junk = 4
INVARIANTS ScanExact Found ReadsAreExact Rejections EofOnlyWhenCut EndsAtOne
PROPERTIES ProgressMonotone Opens
CHECK_DEADLOCK FALSE

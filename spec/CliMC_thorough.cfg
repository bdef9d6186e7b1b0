SPECIFICATION Spec
CONSTANTS
 CardLen = 2
 Cards = 2
 BinLen = 5
 BinBase = 5
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 Names = {"a","b"}
 Shapes <- ShapesDefault
 MaxOps = 6
INVARIANTS PrintsPresentContent FailsOnlyWhenUnreadable CommandsAgree
PROPERTY CommandsOnlyRead
VIEW NoHist
CHECK_DEADLOCK FALSE

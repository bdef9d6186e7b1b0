INIT TInit
NEXT TNext
ALIAS TAlias
CONSTANTS
 CardLen = 80
 Cards = 40
 BinLen = 400
 BinBase = 3201
 BinFields <- BinaryHeaderTable
 THLen = 240
 THBase = 1
 StopStanza <- RealStop
 CardSlots <- StdSlots
 CardTexts <- StdCards
 SampleWidths <- RealWidths
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
 CardLen = 4
 Cards = 2
 BinLen = 5
 BinBase = 9
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 CardSlots <- SmallSlots
 CardTexts <- SmallCards
 Alphabet = {65, 13, 10}
 MaxText = 7
CONSTRAINT EmitText
CHECK_DEADLOCK FALSE

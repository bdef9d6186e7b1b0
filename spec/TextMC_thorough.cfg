INIT Init
NEXT Next
CONSTANTS
 CardLen = 4
 Cards = 2
 BinLen = 5
 BinBase = 9
 BinFields <- SmallBinFields
 THLen = 5
 THBase = 1
 StopStanza <- SmallStop
 SampleWidths <- SmallWidths
 CardSlots <- SmallSlots
 CardTexts <- SmallCards
 Alphabet = {65, 109, 33, 32, 13, 10}
 MaxText = 6
INVARIANTS Typewriter Shaped OnePageAtLeast StopAppended ReadBack CutRefused Codec Template
CHECK_DEADLOCK FALSE

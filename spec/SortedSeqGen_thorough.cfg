INIT Init
NEXT Next
CONSTANTS
 Values <- Ints
 MaxLen = 5
CONSTRAINT EmitItems
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
 Values <- Ints
 MaxLen = 4
CONSTRAINT EmitItems
CHECK_DEADLOCK FALSE

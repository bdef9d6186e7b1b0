INIT Init
NEXT Next
CONSTANTS
 MaxFields = 3
 Offsets = {0, 1, 2, 3, 5}
 Starts = {0, 1}
 Lengths = {0, 6}
CONSTRAINT EmitFormat
CHECK_DEADLOCK FALSE

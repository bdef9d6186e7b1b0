INIT Init
NEXT Next
CONSTANTS
 Values <- Ints
 MaxLen = 6
INVARIANTS Exact AsRange Search Mirror Backwards Slices
CHECK_DEADLOCK FALSE

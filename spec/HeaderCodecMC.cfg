INIT Init
NEXT Next
CONSTANTS
 MaxFields = 2
 Offsets = {0, 1, 2, 3, 4, 5, 7}
 Starts = {0, 1}
 Lengths = {0, 6, 9}
INVARIANTS RoundTrip Exact Order Parts
CHECK_DEADLOCK FALSE

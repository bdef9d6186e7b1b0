SPECIFICATION Spec
CONSTANTS
 Base = 3
 HeadLen = 5
 MaxRuns = 3
 MaxCount = 3
 MaxLen = 3
 Width = 2
 Start = 4
INVARIANTS Positions LongestIsSeen Arithmetic
CHECK_DEADLOCK FALSE

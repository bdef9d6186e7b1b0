INIT Init
NEXT Next
CONSTANTS
 MaxI = 4
 MaxJ = 3
 Steps = {1, 2}
 ValueSteps <- VS
INVARIANT Agrees
CHECK_DEADLOCK FALSE

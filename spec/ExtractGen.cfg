INIT Init
NEXT Next
CONSTANTS
 Keys <- KeysMany
 Lengths <- LengthsMany
 SeqNumbers <- NumbersMany
 MaxSeq = 3
 Bounds <- BoundsMany
 Steps <- StepsMany
 Numbers <- NumbersMany
 Whats = {"inline", "xline", "timeslice", "headers"}
CONSTRAINT Requests
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Keys <- KeysDefault
 Lengths <- LengthsMany
 SeqNumbers <- SeqDefault
 MaxSeq = 2
 Bounds <- BoundsDefault
 Steps <- StepsDefault
 Numbers <- NumbersDefault
 Whats = {"inline", "xline", "timeslice", "headers"}
INVARIANTS ArrayExact RefusedExactly EmptyExactly Increasing
PROPERTY RowsOnlyOnce
CHECK_DEADLOCK FALSE

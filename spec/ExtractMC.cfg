SPECIFICATION Spec
CONSTANTS
 Keys <- KeysDefault
 Lengths <- LengthsDefault
 SeqNumbers <- SeqDefault
 MaxSeq = 2
 Bounds <- BoundsDefault
 Steps <- StepsDefault
 Numbers <- NumbersDefault
 Whats = {"inline", "timeslice"}
INVARIANTS ArrayExact RefusedExactly EmptyExactly Increasing
PROPERTY RowsOnlyOnce
CHECK_DEADLOCK FALSE

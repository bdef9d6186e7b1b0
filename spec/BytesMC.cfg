INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Reversal
CHECK_DEADLOCK FALSE

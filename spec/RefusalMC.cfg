SPECIFICATION Spec
CONSTANT MaxReasons = 7
INVARIANTS RefusedForAReason DoneWithoutReason RefusedOpenHasNoEffect EarlyRefusalWritesNothing WholePieces
PROPERTY Decided
CHECK_DEADLOCK FALSE

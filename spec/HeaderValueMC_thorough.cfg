INIT Init
NEXT Next
CONSTANTS
 Ids = {1, 2, 3}
 Offered = {0, 1, 2, 3}
 Limit = 6
VIEW View_
INVARIANTS AlwaysLegal
PROPERTIES Isolated Only
CHECK_DEADLOCK FALSE

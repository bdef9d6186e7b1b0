INIT Init
NEXT Next
CONSTANTS
 Ids = {1, 2}
 Offered = {0, 1, 3}
 Limit = 4
VIEW View_
INVARIANTS AlwaysLegal
PROPERTIES Isolated Only
CHECK_DEADLOCK FALSE

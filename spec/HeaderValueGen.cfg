INIT Init
NEXT GenNext
CONSTANTS
 Ids = {1, 2, 3}
 Offered = {0, 1, 2, 3, 10}
 Limit = 14
CONSTRAINT EmitTrail
CHECK_DEADLOCK FALSE

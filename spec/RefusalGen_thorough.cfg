INIT Init
NEXT Give
CONSTANT MaxReasons = 4
CHECK_DEADLOCK FALSE

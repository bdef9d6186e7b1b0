INIT Init
NEXT Give
CONSTANT MaxReasons = 2
CHECK_DEADLOCK FALSE

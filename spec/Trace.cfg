INIT TInit
NEXT TNext
ALIAS TAlias
CHECK_DEADLOCK FALSE

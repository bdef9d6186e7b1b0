INIT Init
NEXT GenNext
CONSTANTS
 Places = {"a", "b"}
 Cwds = {"home", "away"}
 Readers = {1, 2, 3}
 Blobs = {1, 2}
 MaxOps = 16
CHECK_DEADLOCK FALSE

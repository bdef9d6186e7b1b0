INIT GenInit
NEXT GenNext
CONSTANTS
 Nil = Nil
 Damaged = Damaged
 Foreign = Foreign
 Dirs = {"d1","d2"}
 Names = {"a","b"}
 Contents = {1,2,3,4,5}
 Params = {1,2,3,4}
 Dims = {0,1,2,3}
 Wheres = {"own","shared","none","unusable"}
 KeyHasDim = FALSE
 MaxOps = 13
CONSTRAINT Histories
CHECK_DEADLOCK FALSE

INIT MInit
NEXT MNext
CONSTANTS
 Nil = Nil
 Damaged = Damaged
 Foreign = Foreign
 Dirs = {"d1"}
 Names = {"a","b"}
 Contents = {1,2}
 Params = {1}
 Dims = {0,2}
 Wheres = {"shared","unusable"}
 KeyHasDim = TRUE
 MaxOps = 0
INVARIANTS Fresh FreshDim RefusedOnlyForeign EntriesMatch
PROPERTIES FilesUntouched OnlyTheEntry
CHECK_DEADLOCK FALSE

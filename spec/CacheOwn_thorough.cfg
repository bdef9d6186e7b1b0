INIT MInit
NEXT MNext
CONSTANTS
 Nil = Nil
 Damaged = Damaged
 Foreign = Foreign
 Dirs = {"d1","d2"}
 Names = {"a"}
 Contents = {1,2}
 Params = {1}
 Dims = {0,2}
 Wheres = {"own","shared"}
 KeyHasDim = FALSE
 MaxOps = 0
INVARIANTS Fresh RefusedOnlyForeign EntriesMatch
PROPERTIES FilesUntouched OnlyTheEntry
CHECK_DEADLOCK FALSE

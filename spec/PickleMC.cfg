SPECIFICATION Spec
CONSTANTS
 Places = {"a", "b"}
 Cwds = {"home", "away"}
 Readers = {1, 2}
 Blobs = {1}
 MaxOps = 6
VIEW View
INVARIANTS OnlyNamedArePickled RestoredIsReachable RefusedForAReason
PROPERTIES OpenStaysOpen DumpOnlyAddsABlob
CHECK_DEADLOCK FALSE

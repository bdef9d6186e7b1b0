----------------------------- MODULE DumpTables ------------------------------
(* tools/dump_tables.sh: hands the record layouts to the drivers, which need the
   field names and legal values to build headers. *)
EXTENDS SegyTables, StdTemplate, TLC, Json, IOUtils
VARIABLE x
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, [binary |-> BinaryHeaderTable, rev0 |-> TraceHeader0Table, rev1 |-> TraceHeader1Table, slots |-> StdSlots])
Next == FALSE /\ x' = x
=============================================================================

------------------------------ MODULE Scenario -------------------------------
(* Behaviours generated by TLC are written as JSON, one per line, to the file
   named by the environment variable SCEN; the drivers replay them on the code. *)
EXTENDS TLC, Json, IOUtils, Sequences
Emit(value) == Serialize(ToJson(value) \o "\n", IOEnv.SCEN,
                         [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

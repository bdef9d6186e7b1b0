-------------------------------- MODULE CliMC --------------------------------
(* C22: histories of commands on files which are written, replaced and damaged in
   between, with the reader cache the commands use by default.  What a command
   prints is what a reader of the present bytes reports, whether or not an entry
   of the cache was used, and no command changes a data file. *)
EXTENDS SegyFormat, SegySmall, Scenario
CONSTANTS Names, Shapes, MaxOps
VARIABLES files, cache, out, hist
vars == <<files, cache, out, hist>>
C == INSTANCE Cli WITH TypeNames <- [c \in DOMAIN SampleWidths |-> ToString(c)], Descriptions <- [c \in DOMAIN SampleWidths |-> "type"]
Table == TLCEval(MkTable(SmallTraceFields, 1, THLen))
(* a shape is a sequence of [n, cdp, inline, crossline] *)
Tr(n, c, i, x) == [n |-> n, c |-> c, i |-> i, x |-> x]
ShapesDefault == << <<>>, <<Tr(1, 0, 0, 0)>>, <<Tr(0, 1, 0, 0), Tr(2, 2, 0, 1)>>, <<Tr(1, 1, 0, 0), Tr(1, 2, 0, 0)>>,
                    <<Tr(2, 1, 0, 0), Tr(0, 1, 0, 0)>>, <<Tr(1, 1, 0, 0), Tr(1, 1, 0, 1), Tr(1, 1, 1, 0)>> >>
FileOfShape(k) == FileOf([text |-> << <<65, 32>>, <<66, 65>> >>, ext |-> <<>>, bin |-> <<8, 256, 0>>,
                          traces |-> [t \in 1..Len(Shapes[k]) |-> LET x == Shapes[k][t] IN [h |-> <<x.n, x.c, x.i, x.x>>, s |-> [j \in 1..x.n |-> j]]]], "ascii", Table, Big)
Content == TLCEval([k \in 1..Len(Shapes) |-> FileOfShape(k)])
ViewOf(b) == View(b, "none", Table, Big, 0)
Views == TLCEval([k \in 1..Len(Shapes) |-> ViewOf(Content[k])])
Bytes(k) == IF k = 0 THEN <<1, 2>> ELSE Content[k]      \* 0: not a SEG-Y file
Init == files = [n \in Names |-> -1] /\ cache = <<>> /\ out = [k |-> "none"] /\ hist = <<>>
Log(op) == Len(hist) < MaxOps /\ hist' = Append(hist, op)
Put == \E n \in Names, k \in 0..Len(Shapes) : files' = [files EXCEPT ![n] = k] /\ Log([op |-> "put", name |-> n, shape |-> k, cmd |-> "-"]) /\ out' = [k |-> "none"] /\ UNCHANGED cache
(* entries are found by the bytes of the file *)
Found(k) == k \in DOMAIN cache /\ cache[k].ok
Reported(v, cmd) == IF cmd = "metadata" THEN C!Metadata(v) ELSE [facts |-> C!Facts(v, BinValue(v.bin, "format_revision_num")), text |-> C!PrintedText(v.text)]
Run == \E n \in Names, cmd \in {"metadata", "report"} :
         /\ files[n] # -1
         /\ LET k == files[n]
            IN IF k = 0 THEN out' = [k |-> "failed", name |-> n, cmd |-> cmd] /\ UNCHANGED cache
               ELSE LET v == IF Found(k) THEN cache[k] ELSE Views[k]
                    IN /\ out' = [k |-> "printed", name |-> n, cmd |-> cmd, said |-> Reported(v, cmd)]
                       /\ cache' = (k :> v) @@ cache
         /\ Log([op |-> "run", name |-> n, shape |-> 0, cmd |-> cmd]) /\ UNCHANGED files
Damage == \E k \in DOMAIN cache : cache' = [cache EXCEPT ![k] = Refused("damaged")] /\ Log([op |-> "damage", name |-> "-", shape |-> k, cmd |-> "-"]) /\ out' = [k |-> "none"] /\ UNCHANGED files
Next == Put \/ Run \/ Damage
Spec == Init /\ [][Next]_vars
(* invariants do not look at the history *)
NoHist == <<files, cache, out, Len(hist)>>
PrintsPresentContent == out.k = "printed" => out.said = Reported(ViewOf(Bytes(files[out.name])), out.cmd)
FailsOnlyWhenUnreadable == out.k = "failed" => ~ViewOf(Bytes(files[out.name])).ok
CommandsAgree == out.k = "printed" /\ out.cmd = "report" =>
   LET m == C!Metadata(ViewOf(Bytes(files[out.name]))) IN /\ <<"Number of traces", ToString(m.num_traces)>> \in out.said.facts
                                                          /\ <<"Dimensionality", ToString(m.dimensionality)>> \in out.said.facts
CommandsOnlyRead == [][out'.k # "none" => files' = files]_vars
Histories == Len(hist) = MaxOps => Emit([ops |-> hist])
=============================================================================

----------------------------- MODULE GeometryMC ------------------------------
(* C05: every sequence of (inline, crossline, CDP) keys over a few numbers, as
   the reader builds its three catalogs trace by trace and then chooses what to
   present.  The same sequences are handed to the driver as scenarios. *)
EXTENDS SegyFormat, SegySmall, Scenario
CONSTANTS MaxTraces, Numbers
VARIABLES keys, lineKeys, cdpKeys, lineDup, cdpDup
vars == <<keys, lineKeys, cdpKeys, lineDup, cdpDup>>
Table == TLCEval(MkTable(SmallTraceFields, 1, THLen))
Key == Numbers \X Numbers \X Numbers
Init == keys = <<>> /\ lineKeys = {} /\ cdpKeys = {} /\ lineDup = FALSE /\ cdpDup = FALSE
(* the catalogs are extended with every header read *)
Scan(k) == /\ keys' = Append(keys, k)
           /\ lineDup' = (lineDup \/ <<k[1], k[2]>> \in lineKeys) /\ lineKeys' = lineKeys \cup {<<k[1], k[2]>>}
           /\ cdpDup' = (cdpDup \/ k[3] \in cdpKeys) /\ cdpKeys' = cdpKeys \cup {k[3]}
Next == Len(keys) < MaxTraces /\ \E k \in Key : Scan(k)
Spec == Init /\ [][Next]_vars
Chosen == IF ~lineDup THEN 3 ELSE IF ~cdpDup THEN 2 ELSE 1

File == FileOf([text |-> << <<65, 32>>, <<66, 65>> >>, ext |-> <<>>, bin |-> <<8, 256, 0>>,
                traces |-> [t \in 1..Len(keys) |-> [h |-> <<0, keys[t][3], keys[t][1], keys[t][2]>>, s |-> <<>>]]], "ascii", Table, Big)
ViewWith(dim) == View(File, "ascii", Table, Big, dim)
DimensionalityFollowsHeaders == ViewWith(0).kind = Chosen
ForcedIsHonoured == \A d \in 1..3 : ViewWith(d).kind = d
IndexExact == \A d \in 0..3 :
  LET v == ViewWith(d)
      ix == IndexOf(v)
      Of(t) == IF v.kind = 3 THEN <<keys[t][1], keys[t][2]>> ELSE keys[t][3]
  IN /\ v.kind \in {2, 3} /\ ~(IF v.kind = 3 THEN lineDup ELSE cdpDup)
          => DOMAIN ix = (IF v.kind = 3 THEN lineKeys ELSE cdpKeys) /\ \A t \in 1..Len(keys) : ix[Of(t)] = t - 1
     /\ v.kind \in {2, 3} /\ (IF v.kind = 3 THEN lineDup ELSE cdpDup) => DOMAIN ix = {}
     /\ v.kind = 1 => DOMAIN ix = {}
     /\ \A a, b \in DOMAIN ix : a # b => ix[a] # ix[b]
Geometries == Emit(keys)
=============================================================================

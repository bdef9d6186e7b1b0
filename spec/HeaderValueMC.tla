---------------------------- MODULE HeaderValueMC ----------------------------
(* C09 at small scale: a few header objects of two formats, created, assigned, copied,
   compared and discarded in any order.  Identities are reused after a discard, as
   memory addresses are. *)
EXTENDS HeaderValue, Scenario
CONSTANTS Ids, Offered, Limit
VARIABLES heap, steps, trail, turn
vars == <<heap, steps, trail, turn>>
Fld(n, off, lo, hi, vals, def) == [name |-> n, off |-> off, tid |-> n, w |-> 2, lo |-> lo, hi |-> hi, vals |-> vals, def |-> def]
FmtA == [start |-> 1, len |-> 8, fields |-> <<Fld("fa", 1, -2, 2, {}, 0), Fld("fb", 3, 0, 9, {1, 2}, 1)>>]
FmtB == [start |-> 1, len |-> 8, fields |-> <<Fld("fa", 1, 0, 2, {}, 2)>>]
Fmt(n) == IF n = "A" THEN FmtA ELSE FmtB
Fmts == {"A", "B"}
NoHeader == [fmt |-> "none", vals |-> <<>>]
Init == heap = [i \in Ids |-> NoHeader] /\ steps = 0 /\ trail = <<>> /\ turn = ""
Live == {i \in Ids : heap[i] # NoHeader}
IntV(v) == [k |-> "int", v |-> v]
Ups == {<<>>} \cup {<<[n |-> n, x |-> IntV(v)]>> : n \in {"fa", "fb", "zz"}, v \in Offered}
Log(e) == trail' = Append(trail, e)
New(i, f, ups) == /\ heap' = IF UpdateErrors(Fmt(f), ups) = {} THEN [heap EXCEPT ![i] = [fmt |-> f, vals |-> Updated(Fmt(f), Defaults(Fmt(f)), ups)]] ELSE heap
                  /\ Log(<<"new", i, f, ups>>)
Set(i, n, v) == LET h == heap[i] u == <<[n |-> n, x |-> IntV(v)]>>
                IN /\ heap' = IF UpdateErrors(Fmt(h.fmt), u) = {} THEN [heap EXCEPT ![i] = [h EXCEPT !.vals = Updated(Fmt(h.fmt), h.vals, u)]] ELSE heap
                   /\ Log(<<"set", i, n, v>>)
Copy(i, j, ups) == LET h == heap[i]
                   IN /\ heap' = IF UpdateErrors(Fmt(h.fmt), ups) = {} THEN [heap EXCEPT ![j] = [h EXCEPT !.vals = Updated(Fmt(h.fmt), h.vals, ups)]] ELSE heap
                      /\ Log(<<"copy", i, j, ups>>)
Drop(i) == heap' = [heap EXCEPT ![i] = NoHeader] /\ Log(<<"drop", i>>)
News == \E i \in Ids, f \in Fmts, u \in Ups : New(i, f, u)
Sets == \E i \in Live : \E n \in {"fa", "fb"}, v \in Offered : HasName(Fmt(heap[i].fmt), n) /\ Set(i, n, v)
Copies == \E i \in Live, j \in Ids, u \in Ups : i # j /\ Copy(i, j, u)
Drops == \E i \in Live : Drop(i)
Step == (News \/ Sets \/ Copies \/ Drops) /\ UNCHANGED turn
Stopped == steps = Limit + 1
(* the same, the kind of the step being chosen first: for simulation, which then
   visits all kinds of steps equally often *)
Turn == /\ turn = "" /\ steps < Limit /\ UNCHANGED <<heap, steps, trail>>
        /\ turn' \in IF Live = {} THEN {"new"} ELSE {"new", "set", "set2", "copy", "drop"}
Take_ == /\ steps < Limit /\ steps' = steps + 1 /\ turn' = ""
         /\ CASE turn = "new" -> News [] turn = "set" -> Sets [] turn = "set2" -> Sets [] turn = "copy" -> Copies [] turn = "drop" -> Drops [] OTHER -> FALSE
GenNext == Turn \/ Take_ \/ (steps = Limit /\ steps' = steps + 1 /\ UNCHANGED <<heap, trail, turn>>)
Next == IF steps = Limit THEN steps' = steps + 1 /\ UNCHANGED <<heap, trail, turn>>
        ELSE steps < Limit /\ steps' = steps + 1 /\ Step
View_ == <<heap, steps>>
AlwaysLegal == \A i \in Live : AllLegal(Fmt(heap[i].fmt), heap[i].vals)
Isolated == [][Cardinality({i \in Ids : heap'[i] # heap[i]}) <= 1]_vars
Only == [][\A i \in Live : heap'[i] # heap[i] /\ heap'[i] # NoHeader => heap'[i].fmt = heap[i].fmt \/ trail'[Len(trail')][1] \in {"new", "copy"}]_vars
EmitTrail == Stopped => Emit(trail)
=============================================================================

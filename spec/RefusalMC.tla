----------------------------- MODULE RefusalMC -------------------------------
(* C18: an operation looks at its arguments in an order which is its own business,
   and has its effects once it has found nothing wrong with those it has to look at
   first.  Whatever the order, a refused open has had no effect at all, a write
   refused for its encoding or progress argument has written nothing, and any other
   refused write has appended whole pieces of the file it would have written.  Every
   combination of reasons is handed to the driver. *)
EXTENDS Refusal, Scenario
CONSTANTS MaxReasons
VARIABLES op, reasons, looked, written, cached, moved, outcome, given
vars == <<op, reasons, looked, written, cached, moved, outcome, given>>
Possible(o) == IF o = "open" THEN {x \in SUBSET OpenReasons : Cardinality(x) <= MaxReasons /\ Cardinality(x \cap FileFaults) <= 1}
               ELSE {x \in SUBSET WriteReasons : Cardinality(x) <= MaxReasons}
First(o) == IF o = "open" THEN OpenReasons ELSE EarlyReasons
Init == /\ op \in {"open", "write"} /\ reasons \in Possible(op)
        /\ looked = {} /\ written = <<>> /\ cached = FALSE /\ moved = FALSE /\ outcome = "none" /\ given = FALSE
Look == \E x \in First(op) \ looked :
           /\ outcome = "none"
           /\ looked' = looked \cup {x}
           /\ IF x \in reasons THEN \E e \in RefusalOf(x) : outcome' = e ELSE UNCHANGED outcome
           /\ UNCHANGED <<op, reasons, written, cached, moved, given>>
Pieces == 5   \* textual header, binary header, extended headers, two traces
Append1 == /\ op = "write" /\ outcome = "none" /\ looked = EarlyReasons /\ Len(written) < Pieces
           /\ LET k == Len(written) + 1
                  wrong == {x \in reasons \ EarlyReasons : PieceOf(x) = k}
              IN \/ wrong # {} /\ (\E e \in Refusals(wrong) : outcome' = e) /\ UNCHANGED written
                 \/ wrong = {} /\ written' = Append(written, k) /\ outcome' = (IF k = Pieces THEN "done" ELSE "none")
           /\ UNCHANGED <<op, reasons, looked, cached, moved, given>>
Scan == /\ op = "open" /\ outcome = "none" /\ looked = OpenReasons
        /\ moved' = TRUE /\ cached' \in BOOLEAN /\ outcome' = "done" /\ UNCHANGED <<op, reasons, looked, written, given>>
Next == Look \/ Append1 \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refused == outcome \notin {"none", "done"}
RefusedForAReason == Refused => outcome \in Refusals(reasons)
DoneWithoutReason == outcome = "done" => reasons = {}
RefusedOpenHasNoEffect == op = "open" /\ Refused => ~moved /\ ~cached
EarlyRefusalWritesNothing == op = "write" /\ Refused /\ reasons \cap EarlyReasons # {} => written = <<>>
WholePieces == \A k \in 1..Len(written) : written[k] = k
Decided == <>(outcome # "none")
Give == /\ ~given /\ Emit([op |-> op, reasons |-> [x \in (OpenReasons \cup WriteReasons) |-> x \in reasons]])
        /\ given' = TRUE /\ UNCHANGED <<op, reasons, looked, written, cached, moved, outcome>>
=============================================================================

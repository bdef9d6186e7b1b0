----------------------------- MODULE TraceMain ------------------------------
(* The replay machine shared by all trace specifications.  A trace module
   EXTENDS TraceBase, defines Init0, Apply and Clauses from the operators and
   actions of the model it binds, and instantiates this module:
       VARIABLES i, st, bad
       TM == INSTANCE TraceMain
       TInit == TM!Init
       TNext == TM!Next
   Every event of the recorded execution is consumed by one step.  An event
   which is not explained by the model makes one or more named clauses false;
   they are collected with the line number, and the replay goes on (Apply is
   total), so one rejected event does not leave the rest unexamined.  The
   verdict is written when the whole trace has been consumed. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Trace, Init0, Apply(_, _), Clauses(_, _)
VARIABLES i, st, bad

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

Init == i = 1 /\ st = Init0 /\ bad = <<>>

Judge(ev) == IF ev.op = "crash" THEN [driver_completed |-> FALSE] ELSE Clauses(st, ev)

Step == /\ i <= Len(Trace)
        /\ PrintT(<<"event", i>>)     \* tells which event it was that the model has no meaning for, if any
        /\ LET ev == Trace[i]
               cl == TLCEval(Judge(ev))
               failing == TLCEval(AsSeq({c \in DOMAIN cl : ~cl[c]}))
           IN /\ bad' = bad \o [k \in 1..Len(failing) |-> [line |-> i, clause |-> failing[k]]]
              /\ st' = IF ev.op = "crash" THEN st ELSE Apply(st, ev)
              /\ i' = i + 1

Done == /\ i = Len(Trace) + 1
        /\ i' = i + 1
        /\ UNCHANGED <<st, bad>>
        /\ JsonSerialize(IOEnv.VERDICT, <<[events |-> Len(Trace), bad |-> bad]>>)

Next == Step \/ Done
=============================================================================

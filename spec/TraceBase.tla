----------------------------- MODULE TraceBase ------------------------------
(* Common vocabulary of the trace specifications.  An event is a record with a
   field op; the outcome of a call is
     [k |-> "ok", v |-> value]                 it returned, value projected
     [k |-> "exc", t |-> class, m |-> MRO]     it raised
     [k |-> "shape"]                           it returned something which the
                                               projection cannot represent *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

IsOk(r) == r.k = "ok"
IsExc(r) == r.k = "exc"
Raised(r, name) == r.k = "exc" /\ \E j \in DOMAIN r.m : r.m[j] = name
RaisedAny(r, names) == r.k = "exc" /\ \E j \in DOMAIN r.m : r.m[j] \in names
Returned(r, v) == r.k = "ok" /\ r.v = v
Has(rec, f) == f \in DOMAIN rec
NoClauses == [none |-> TRUE]
=============================================================================

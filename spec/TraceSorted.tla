----------------------------- MODULE TraceSorted -----------------------------
EXTENDS TraceBase, SortedSeq
Init0 == [x |-> 0]
Apply(s, ev) == s
Out(r, o) == IF o.k = "ok" THEN Returned(r, o.v) ELSE Raised(r, o.name)
(* the items of a source: a range is given by its three numbers *)
Source(src) == IF src.kind = "range" THEN RangeSeq(src.items[1], src.items[2], src.items[3]) ELSE src.items
(* asked to keep the sense, a range stays as it is *)
Made(src, sense) == IF src.kind = "range" /\ sense = "keep" THEN Source(src) ELSE SortedDistinct(Source(src), sense)
(* operations on a sequence s, as recorded in p *)
Probing(s, p) ==
  [length |-> Returned(p.len, Len(s)),
   items |-> \A k \in 1..Len(p.get) : Out(p.get[k].res, ItemAt(s, p.get[k].i)),
   backwards |-> Returned(p.rev, Rev(s)),
   search |-> \A k \in 1..Len(p.find) : LET q == p.find[k] IN
                 /\ Out(q.index, FirstIndex(s, q.x))
                 /\ Returned(q.has, q.x \in Elements(s))
                 /\ Returned(q.count, CountOf(s, q.x)),
   slices |-> \A k \in 1..Len(p.slices) : LET q == p.slices[k] want == SliceSeq(s, q.a, q.b, q.c)
                 IN IF q.c > 0 THEN Returned(q.res, want) ELSE IsOk(q.res) /\ Elements(q.res.v) = Elements(want) /\ Len(q.res.v) = Len(want)]
Clauses(s, ev) ==
  CASE ev.op = "begin" -> NoClauses
    [] ev.op = "s_make" -> LET want == TLCEval(Made(ev.src, ev.sense))
                           IN IF Returned(ev.res, want) THEN [sequence |-> TRUE] @@ Probing(want, ev.probes) ELSE [sequence |-> FALSE]
    [] ev.op = "s_badsense" -> [sense_refused |-> Raised(ev.res, "TypeError")]
    [] ev.op = "s_equal" -> [equality |-> Returned(ev.res, Made(ev.a, ev.sense) = Made(ev.b, ev.sense))]
    [] ev.op = "s_set" -> LET A == Elements(Source(ev.a)) B == Elements(Source(ev.b))
                          IN [set_algebra |-> \A k \in 1..Len(ev.ops) : Returned(ev.ops[k].res, Ascend(SetOp(ev.ops[k].f, A, B))),
                              set_relations |-> \A k \in 1..Len(ev.rels) : Returned(ev.rels[k].res, SetRel(ev.rels[k].f, A, B)),
                              operands_unchanged |-> ev.after_a = Ascend(A) /\ ev.after_b = Ascend(B)]
    [] ev.op = "s_repeat" -> [repetition |-> Returned(ev.res, IF ev.n > 0 THEN Ascend(Elements(Source(ev.a))) ELSE <<>>)]
    [] ev.op = "s_view" -> LET want == Rev(Source(ev.src)) IN IF Returned(ev.res, want) THEN [view |-> TRUE] @@ Probing(want, ev.probes) ELSE [view |-> FALSE]
VARIABLES i, st, bad
TM == INSTANCE TraceMain
TInit == TM!Init
TNext == TM!Next
TAlias == [i |-> i]
=============================================================================

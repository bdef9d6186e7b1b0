----------------------------- MODULE HeaderValue -----------------------------
(* Header objects: a store from header identities to [fmt, vals].  vals follow the
   order of the effective fields of the format.  A value offered to a field is
   [k |-> "int", v |-> integer] or [k |-> "huge"] (beyond 32 bits) or [k |-> "other"]
   (something which is not a number). *)
EXTENDS HeaderCodec

FieldIx(fmt, n) == CHOOSE k \in 1..Len(fmt.fields) : fmt.fields[k].name = n
HasName(fmt, n) == \E k \in 1..Len(fmt.fields) : fmt.fields[k].name = n
Defaults(fmt) == TLCEval([k \in 1..Len(fmt.fields) |-> fmt.fields[k].def])
Acceptable(f, x) == x.k = "int" /\ LegalValue(f, x.v)
(* updates: a sequence of [n |-> field name, x |-> offered value], one per name *)
UnknownNames(fmt, ups) == {k \in 1..Len(ups) : ~HasName(fmt, ups[k].n)}
BadValues(fmt, ups) == {k \in 1..Len(ups) : HasName(fmt, ups[k].n) /\ ~Acceptable(fmt.fields[FieldIx(fmt, ups[k].n)], ups[k].x)}
Updated(fmt, vals, ups) ==
  TLCEval([k \in 1..Len(fmt.fields) |->
     IF \E j \in 1..Len(ups) : ups[j].n = fmt.fields[k].name
     THEN (ups[CHOOSE j \in 1..Len(ups) : ups[j].n = fmt.fields[k].name]).x.v ELSE vals[k]])
(* errors an attempt to apply the updates may end with; none when it must succeed *)
ValueErrors(fmt, ups) == UNION {IF ups[k].x.k = "other" THEN {"ValueError", "TypeError"} ELSE {"ValueError"} : k \in BadValues(fmt, ups)}
UpdateErrors(fmt, ups) == (IF UnknownNames(fmt, ups) # {} THEN {"TypeError"} ELSE {}) \cup ValueErrors(fmt, ups)
=============================================================================

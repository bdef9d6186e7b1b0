----------------------------- MODULE HeaderCodec -----------------------------
(* Record formats in general: fields of typed integers at declared positions.
   A field is [name, off, tid, w, lo, hi, vals, def]; tid identifies its type.
   A format is [fields |-> sequence of fields, start |-> position of the first
   byte, len |-> declared length of the record or 0]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes

LegalValue(f, v) == f.lo <= v /\ v <= f.hi /\ (f.vals = {} \/ v \in f.vals)
(* a field declared again, in the same class or a derived one, replaces the first *)
Effective(fields) ==
  LET last == {k \in 1..Len(fields) : \A j \in (k + 1)..Len(fields) : fields[j].name # fields[k].name}
      RECURSIVE From(_)
      From(k) == IF k > Len(fields) THEN <<>> ELSE IF k \in last THEN <<fields[k]>> \o From(k + 1) ELSE From(k + 1)
  IN TLCEval(From(1))
Overlap(f, g) == f.off < g.off + g.w /\ g.off < f.off + f.w
Coincident(f, g) == f.off = g.off /\ f.w = g.w
EndOf(f) == f.off + f.w
Needed(fmt) == LET e == CHOOSE e \in {EndOf(fmt.fields[k]) : k \in 1..Len(fmt.fields)} : \A k \in 1..Len(fmt.fields) : EndOf(fmt.fields[k]) <= e
               IN e - fmt.start
LengthOf(fmt) == IF fmt.len = 0 THEN Needed(fmt) ELSE fmt.len
(* reasons for which a format is refused *)
Faults(fmt) ==
  LET F == fmt.fields
      pairs == {p \in (1..Len(F)) \X (1..Len(F)) : p[1] < p[2]}
  IN (IF F = <<>> THEN {"empty"} ELSE {})
     \cup (IF fmt.start < 0 THEN {"start"} ELSE {})
     \cup (IF fmt.len < 0 THEN {"length"} ELSE {})
     \cup (IF \E p \in pairs : Overlap(F[p[1]], F[p[2]]) /\ ~Coincident(F[p[1]], F[p[2]]) THEN {"overlap"} ELSE {})
     \cup (IF \E p \in pairs : Coincident(F[p[1]], F[p[2]]) /\ F[p[1]].tid # F[p[2]].tid THEN {"types"} ELSE {})
     \cup (IF F # <<>> /\ fmt.len > 0 /\ Needed(fmt) > fmt.len THEN {"too_short"} ELSE {})
     \cup (IF \E k \in 1..Len(F) : F[k].off < fmt.start THEN {"before_start"} ELSE {})

(* the first field which covers byte p of the record, or 0 *)
Covers(f, fmt, p) == f.off - fmt.start < p /\ p <= f.off - fmt.start + f.w
Cover(fmt) == TLCEval([p \in 1..LengthOf(fmt) |-> LET S == {k \in 1..Len(fmt.fields) : Covers(fmt.fields[k], fmt, p)}
                                                  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j])
Agree(fmt, vals) == \A j, k \in 1..Len(fmt.fields) : Coincident(fmt.fields[j], fmt.fields[k]) => vals[j] = vals[k]
PackBytes(fmt, vals, endian) ==
  LET cover == Cover(fmt)
  IN TLCEval([p \in 1..LengthOf(fmt) |->
       IF cover[p] = 0 THEN 0
       ELSE LET f == fmt.fields[cover[p]] IN BytesOf(vals[cover[p]], f.w, endian)[p - (f.off - fmt.start)]])
UnpackValues(fmt, bytes, endian) ==
  TLCEval([k \in 1..Len(fmt.fields) |-> IntOf(At(bytes, fmt.fields[k].off - fmt.start + 1, fmt.fields[k].w), endian)])
AllLegal(fmt, vals) == \A k \in 1..Len(fmt.fields) : LegalValue(fmt.fields[k], vals[k])
(* the format with some of the fields only, in the order given *)
FieldNamed(fmt, n) == fmt.fields[CHOOSE k \in 1..Len(fmt.fields) : fmt.fields[k].name = n]
SubFormat(fmt, names) == [fmt EXCEPT !.fields = [k \in 1..Len(names) |-> FieldNamed(fmt, names[k])]]
=============================================================================

---------------------------- MODULE HeaderCodecMC ----------------------------
(* C08 at small scale: formats are declared field by field, at any position, in any
   order, also on top of one another; every accepted one packs and unpacks exactly. *)
EXTENDS HeaderCodec, Scenario
CONSTANTS MaxFields, Offsets, Starts, Lengths
T(tid) == CASE tid = "int16" -> [w |-> 2, lo |-> -32768, hi |-> 32767]
            [] tid = "nnint16" -> [w |-> 2, lo |-> 0, hi |-> 32767]
            [] tid = "int32" -> [w |-> 4, lo |-> (-2147483647-1), hi |-> 2147483647]
Types == {"int16", "nnint16", "int32"}
Names == <<"fa", "fb", "fc", "fd">>
VARIABLES fmt
F(k, off, tid) == [name |-> Names[k], off |-> off, tid |-> tid, w |-> T(tid).w, lo |-> T(tid).lo, hi |-> T(tid).hi, vals |-> {}, def |-> 0]
Init == \E s \in Starts, n \in Lengths : fmt = [fields |-> <<>>, start |-> s, len |-> n]
Declare == /\ Len(fmt.fields) < MaxFields
           /\ \E off \in Offsets, tid \in Types : fmt' = [fmt EXCEPT !.fields = Append(@, F(Len(@) + 1, off, tid))]
Next == Declare
Accepted == Faults(fmt) = {}
Values == {<<-2, 515, 1, 7>>, <<258, 258, 258, 258>>, <<0, 0, 0, 0>>, <<32767, -32768, 5, 5>>}
Take(v) == SubSeq(v, 1, Len(fmt.fields))
Settable(v) == AllLegal(fmt, Take(v)) /\ Agree(fmt, Take(v))
RoundTrip == Accepted => \A v \in Values, e \in {Big, Little} : Settable(v) => UnpackValues(fmt, PackBytes(fmt, Take(v), e), e) = Take(v)
Exact == Accepted => \A v \in Values, e \in {Big, Little} : Settable(v) =>
           LET b == PackBytes(fmt, Take(v), e)
           IN /\ Len(b) = LengthOf(fmt)
              /\ \A p \in 1..Len(b) : (\A k \in 1..Len(fmt.fields) : ~Covers(fmt.fields[k], fmt, p)) => b[p] = 0
              /\ \A k \in 1..Len(fmt.fields) : At(b, fmt.fields[k].off - fmt.start + 1, fmt.fields[k].w) = BytesOf(v[k], fmt.fields[k].w, e)
(* declaring the fields backwards makes no difference *)
Flip(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Order == Accepted => LET g == [fmt EXCEPT !.fields = Flip(@)]
                     IN /\ Faults(g) = {}
                        /\ \A v \in Values : Settable(v) => PackBytes(g, Flip(Take(v)), Big) = PackBytes(fmt, Take(v), Big)
(* a part of an accepted format is accepted, and reads what the whole reads *)
Parts == Accepted => \A k \in 1..Len(fmt.fields) : \A j \in 1..Len(fmt.fields) :
           LET names == IF j = k THEN <<fmt.fields[k].name>> ELSE <<fmt.fields[k].name, fmt.fields[j].name>>
               sub == SubFormat(fmt, names)
           IN Faults(sub) = {} /\ (fmt.len > 0 => \A v \in Values : Settable(v) =>
                 UnpackValues(sub, PackBytes(fmt, Take(v), Big), Big) = [i \in 1..Len(names) |-> v[IF i = 1 THEN k ELSE j]])
EmitFormat == Emit([start |-> fmt.start, len |-> fmt.len, fields |-> [k \in 1..Len(fmt.fields) |-> <<fmt.fields[k].off, fmt.fields[k].tid>>]])
=============================================================================

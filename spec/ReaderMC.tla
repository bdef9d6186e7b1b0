------------------------------ MODULE ReaderMC -------------------------------
(* C03, C04, C17: the reader's scan of the trace headers as the loop the code
   runs, over complete, truncated and padded files, and then arbitrary histories
   of reads through one shared file position. *)
EXTENDS SegyFormat, SegySmall, Scenario
CONSTANTS MaxTraces, MaxOps, Junk
VARIABLES file, cut, lens0, pc, pos, offs, lens, prog, fpos, ops, last
vars == <<file, cut, lens0, pc, pos, offs, lens, prog, fpos, ops, last>>
Table == TLCEval(MkTable(SmallTraceFields, 1, THLen))
SampleOf(k, j) == 10 * k + j
TraceOf(k, n) == [h |-> <<n, k, 1, k>>, s |-> [j \in 1..n |-> SampleOf(k, j)]]
DsOf(ls) == [text |-> << <<65, 32>>, <<66, 65>> >>, ext |-> <<>>, bin |-> <<3, 256, 0>>,
             traces |-> [k \in 1..Len(ls) |-> TraceOf(k, ls[k])]]
Full(ls) == FileOf(DsOf(ls), "ascii", Table, Big)
LensSet == UNION {[1..n -> 0..2] : n \in 0..MaxTraces}
Init == /\ lens0 \in LensSet
        /\ \/ cut \in 0..(Len(Full(lens0)) - ReelLen) /\ file = SubSeq(Full(lens0), 1, ReelLen + cut)
           \/ cut \in {-j : j \in 1..Junk} /\ file = Full(lens0) \o [j \in 1..(-cut) |-> 1]    \* incomplete trailing header
        /\ pc = "scan" /\ pos = ReelLen /\ offs = <<>> /\ lens = <<>> /\ prog = <<0, 1>>
        /\ fpos = 0 /\ ops = <<>> /\ last = [k |-> "none"]
Min(a, b) == IF a < b THEN a ELSE b
(* one turn of the loop in catalog_traces *)
Scan == /\ pc = "scan"
        /\ prog' = <<3 * Min(pos, Len(file)), 4 * Len(file)>>
        /\ fpos' = Min(pos + THLen, IF pos > Len(file) THEN pos ELSE Len(file))
        /\ IF pos + THLen > Len(file)
           THEN pc' = "tail" /\ UNCHANGED <<pos, offs, lens>>
           ELSE LET n == FieldAt(file, pos, SmallTraceFields[1], 1, Big)
                IN /\ offs' = Append(offs, pos) /\ lens' = Append(lens, n)
                   /\ pos' = pos + THLen + 2 * n
                   /\ pc' = "scan"
        /\ UNCHANGED <<file, cut, lens0, ops, last>>
Tail_ == /\ pc \in {"tail", "tail1", "tail2", "tail3"}
         /\ prog' = CASE pc = "tail" -> <<12, 16>> [] pc = "tail1" -> <<13, 16>> [] pc = "tail2" -> <<14, 16>> [] pc = "tail3" -> <<1, 1>>
         /\ pc' = CASE pc = "tail" -> "tail1" [] pc = "tail1" -> "tail2" [] pc = "tail2" -> "tail3" [] pc = "tail3" -> "open"
         /\ UNCHANGED <<file, cut, lens0, pos, offs, lens, fpos, ops, last>>

V == View(file, "ascii", Table, Big, 0)
Stored(k) == DsOf(lens0).traces[k]
(* reads go through the file position: seek to the trace, then read *)
ReadAt(p, n) == IF p + n > Len(file) THEN <<>> ELSE SubSeq(file, p + 1, p + n)
Samples == /\ pc = "open" /\ Len(ops) < MaxOps
           /\ \E k \in -1..Len(offs), b \in -1..3, e \in -1..3 :
                LET legal == k >= 0 /\ k < Len(offs) /\ 0 <= b /\ b <= e /\ e <= lens[k + 1]
                    start == offs[k + 1] + THLen + 2 * b
                    raw == ReadAt(start, 2 * (e - b))
                IN /\ ops' = Append(ops, <<"samples", k, b, e>>)
                   /\ last' = IF ~legal THEN Error("ValueError")
                              ELSE IF Len(raw) < 2 * (e - b) THEN Error("EOFError")
                              ELSE Outcome([j \in 1..(e - b) |-> IntOf(At(raw, 2 * j - 1, 2), Big)])
                   /\ fpos' = IF legal THEN start + Len(raw) ELSE fpos
           /\ UNCHANGED <<file, cut, lens0, pc, pos, offs, lens, prog>>
Header == /\ pc = "open" /\ Len(ops) < MaxOps
          /\ \E k \in -1..Len(offs) :
               LET legal == k >= 0 /\ k < Len(offs)
               IN /\ ops' = Append(ops, <<"header", k, 0, 0>>)
                  /\ last' = IF ~legal THEN Error("ValueError") ELSE Outcome(HeaderAt(file, offs[k + 1], Table, Big))
                  /\ fpos' = IF legal THEN offs[k + 1] + THLen ELSE fpos
          /\ UNCHANGED <<file, cut, lens0, pc, pos, offs, lens, prog>>
Move == /\ pc = "open" /\ Len(ops) < MaxOps
        /\ \E p \in {0, 7} : fpos' = p /\ ops' = Append(ops, <<"move", p, 0, 0>>)
        /\ last' = [k |-> "none"]
        /\ UNCHANGED <<file, cut, lens0, pc, pos, offs, lens, prog>>
Stop == /\ pc = "open" /\ Len(ops) = MaxOps /\ MaxOps > 0 /\ pc' = "stopped"
        /\ UNCHANGED <<file, cut, lens0, pos, offs, lens, prog, fpos, ops, last>>
Next == Scan \/ Tail_ \/ Samples \/ Header \/ Move \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan \/ Tail_)

ScanExact == pc = "open" => V.ok /\ offs = V.offs /\ lens = V.lens
(* the traces found are those of the complete dataset whose header is in the file *)
Found == pc = "open" => /\ Len(offs) <= Len(lens0)
                        /\ \A k \in 1..Len(offs) : lens[k] = lens0[k]
                        /\ cut < 0 => Len(offs) = Len(lens0)
LastOp == ops[Len(ops)]
(* whatever happened before, a read gives what the dataset holds *)
ReadsAreExact ==
  last.k = "ok" => LET o == LastOp IN
     IF o[1] = "header" THEN last.v = Stored(o[2] + 1).h ELSE last.v = SubSeq(Stored(o[2] + 1).s, o[3] + 1, o[4])
Rejections ==
  ops # <<>> /\ LastOp[1] \in {"samples", "header"} =>
     LET o == LastOp
         inside == o[2] >= 0 /\ o[2] < Len(offs) /\ (o[1] = "header" \/ (0 <= o[3] /\ o[3] <= o[4] /\ o[4] <= lens[o[2] + 1]))
     IN IF inside THEN last.k = "ok" \/ last = Error("EOFError") ELSE last = Error("ValueError")
EofOnlyWhenCut == last.k = "error" /\ last.name = "EOFError" => cut >= 0 /\ Len(file) < Len(Full(lens0))
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
ProgressMonotone == [][Le(prog, prog') /\ Le(prog', <<1, 1>>)]_prog
EndsAtOne == pc = "open" => prog = <<1, 1>>
Opens == <>(pc = "open")

(* Scenario generation. *)
Histories == pc = "stopped" => Emit([lens |-> lens0, cut |-> cut, ops |-> ops])
Files == (pc = "open" /\ ops = <<>>) => Emit([lens |-> lens0, cut |-> cut])
=============================================================================

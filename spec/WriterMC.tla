------------------------------ MODULE WriterMC -------------------------------
(* C17, C19: the writer as a sequence of appends, with a crash (or an exception
   of the progress callback, or a failing write) possible at every byte. *)
EXTENDS SegyFormat, SegySmall
CONSTANTS MaxTraces
VARIABLES ds, par, file, pc, t, asked, prog, finished
vars == <<ds, par, file, pc, t, asked, prog, finished>>
Table == TLCEval(MkTable(SmallTraceFields, 1, THLen))
Page(a) == << <<a, 65>>, <<66, 32>> >>
TraceSet == {[h |-> <<Len(s), c, 1, 7>>, s |-> s] : s \in {<<>>, <<5>>, <<-2, 300>>}, c \in {3}}
DataSets == {[text |-> << <<65, 32>>, <<66, 65>> >>, ext |-> ext, bin |-> <<3, 256, Len(ext)>>, traces |-> trs] :
               ext \in {<<>>, <<Page(65), Page(33)>>}, trs \in UNION {[1..n -> TraceSet] : n \in 0..MaxTraces}}
Complete == FileOf(ds, par.enc, Table, par.endian)
Init == /\ ds \in DataSets
        /\ par \in [enc : {"ascii", "cp037"}, endian : {Little}]
        /\ file = <<>> /\ pc = "text" /\ t = 0 /\ asked = <<>> /\ prog = <<>> /\ finished = FALSE

(* the record which the current step appends *)
Record == CASE pc = "text" -> TextBytes(ds.text, par.enc)
            [] pc = "bin" -> HeaderBytes(ds.bin, BinTable, par.endian)
            [] pc = "ext" -> FlattenB([k \in 1..Len(ds.ext) |-> TextBytes(ds.ext[k], par.enc)])
            [] pc = "header" -> HeaderBytes(ds.traces[t].h, Table, par.endian)
            [] pc = "samples" -> SamplesBytes(ds.traces[t].s, CodeOf(ds), par.endian)
            [] OTHER -> <<>>
Writing == pc \in {"text", "bin", "ext", "header", "samples"}
Append_ == /\ Writing
           /\ file' = file \o Record
           /\ pc' = CASE pc = "text" -> "bin" [] pc = "bin" -> "ext" [] pc = "ext" -> "next" [] pc = "header" -> "samples" [] pc = "samples" -> "report"
           /\ asked' = IF pc \in {"header", "samples"} THEN Append(asked, <<pc, t>>) ELSE asked
           /\ UNCHANGED <<ds, par, t, prog, finished>>
NextTrace == /\ pc = "next"
             /\ IF t < Len(ds.traces) THEN t' = t + 1 /\ pc' = "header" ELSE t' = t /\ pc' = "finish"
             /\ UNCHANGED <<ds, par, file, asked, prog, finished>>
Report == /\ pc = "report" /\ pc' = "next"
          /\ prog' = Append(prog, <<t - 1, Len(ds.traces)>>)
          /\ UNCHANGED <<ds, par, file, t, asked, finished>>
Finish == /\ pc = "finish" /\ pc' = "done" /\ finished' = TRUE
          /\ prog' = Append(prog, <<1, 1>>)
          /\ UNCHANGED <<ds, par, file, t, asked>>
Crash == /\ pc \notin {"done", "crashed"}
         /\ \E n \in 0..Len(Record) : file' = file \o SubSeq(Record, 1, n)
         /\ pc' = "crashed"
         /\ UNCHANGED <<ds, par, t, asked, prog, finished>>
Next == Append_ \/ NextTrace \/ Report \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Append_ \/ NextTrace \/ Report \/ Finish)

AppendOnly == [][IsPrefixOf(file, file')]_vars
AlwaysPrefix == IsPrefixOf(file, Complete)
DoneMeansComplete == finished => file = Complete
AsksInOrder == \A a, b \in 1..Len(asked) : a < b => asked[a][2] <= asked[b][2]
Streaming == \A k \in 1..Len(asked) : asked[k][2] <= t
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
ProgressOk == /\ \A k \in 1..Len(prog) : Le(<<0, 1>>, prog[k]) /\ Le(prog[k], <<1, 1>>)
              /\ \A k \in 1..(Len(prog) - 1) : Le(prog[k], prog[k + 1])
              /\ finished => prog[Len(prog)] = <<1, 1>>
Terminates == <>(pc \in {"done", "crashed"})

(* A file cut anywhere is refused or yields only true data. *)
Agrees(partial, complete) ==
  LET v == View(partial, par.enc, Table, par.endian, 0)
      w == View(complete, par.enc, Table, par.endian, 0)
  IN v.ok => /\ NumTraces(v) <= NumTraces(w)
             /\ \A k \in 1..NumTraces(v) : v.offs[k] = w.offs[k] /\ v.lens[k] = w.lens[k]
             /\ \A k \in 0..(NumTraces(v) - 1) :
                  /\ HeaderOutcome(partial, v, k) = HeaderOutcome(complete, w, k)
                  /\ \A b \in 0..v.lens[k + 1], e \in 0..v.lens[k + 1] :
                       SamplesOutcome(partial, v, k, <<b>>, <<e>>) \in {SamplesOutcome(complete, w, k, <<b>>, <<e>>), Error("EOFError")}
             /\ \A key \in DOMAIN IndexOf(v) : v.kind = w.kind => IndexOf(v)[key] = IndexOf(w)[key]
PartialNeverWrong == Agrees(file, Complete)
=============================================================================

------------------------------ MODULE FormatMC -------------------------------
(* C01, C02 at small scale: every dataset over the miniature format, every
   parameter combination.  FileOf and View/DatasetOf are mutually inverse. *)
EXTENDS SegyFormat, SegySmall
CONSTANTS MaxTraces, SampleValues, Keys, Codes
OneSample == {-2}
SomeSamples == {-2, 77}
VARIABLES ds, par
vars == <<ds, par>>
Table == TLCEval(MkTable(SmallTraceFields, 1, THLen))
Texts == {<< <<65, 32>>, <<66, 65>> >>}
Page(a) == << <<a, 65>>, <<66, 32>> >>
Exts == {<<>>, <<Page(65)>>, <<Page(33)>>, <<Page(66), Page(33)>>}
SampleSeqs == UNION {[1..n -> SampleValues] : n \in 0..2}
Trace_(s, c, i, x) == [h |-> <<Len(s), c, i, x>>, s |-> s]
Traces == {Trace_(s, c, i, x) : s \in SampleSeqs, c \in Keys, i \in Keys, x \in {7}}
Init == /\ par \in [enc : {"ascii", "cp037"}, endian : {Big, Little}]
        /\ \E text \in Texts, ext \in Exts, code \in Codes, rev \in {0, 256}, var \in {TRUE, FALSE} :
             /\ var => ext # <<>> /\ IsStopPage(ext[Len(ext)])
             /\ ds = [text |-> text, ext |-> ext, bin |-> <<code, rev, IF var THEN -1 ELSE Len(ext)>>, traces |-> <<>>]
AddTrace == /\ Len(ds.traces) < MaxTraces
            /\ \E tr \in Traces : ds' = [ds EXCEPT !.traces = Append(@, tr)]
            /\ UNCHANGED par
Next == AddTrace
File(p) == FileOf(ds, p.enc, Table, p.endian)
ViewOf(p) == View(File(p), p.enc, Table, p.endian, 0)
TypeOK == Consistent(ds, Table)
WriteRead == LET v == ViewOf(par) IN v.ok /\ DatasetOf(File(par), v) = ds
ReadWrite == LET v == ViewOf(par) IN FileOf(DatasetOf(File(par), v), par.enc, Table, par.endian) = File(par)
Convert == \A e \in {Big, Little}, c \in {"ascii", "cp037"} :
             LET v == ViewOf(par)
                 f == FileOf(DatasetOf(File(par), v), c, Table, e)
             IN f = File([enc |-> c, endian |-> e]) /\ DatasetOf(f, View(f, c, Table, e, 0)) = ds
Layout == LET f == File(par) IN
  Len(f) = ReelLen + TextLen * Len(ds.ext)
           + THLen * Len(ds.traces) + MaxOf(<<0>>) + SampleWidths[CodeOf(ds)] *
             (LET RECURSIVE Tot(_) Tot(k) == IF k = 0 THEN 0 ELSE Len(ds.traces[k].s) + Tot(k - 1) IN Tot(Len(ds.traces)))
Indexed == LET v == ViewOf(par)
               ix == IndexOf(v)
               want(k) == IF v.kind = 3 THEN <<ds.traces[k].h[3], ds.traces[k].h[4]>> ELSE ds.traces[k].h[2]
               distinct3 == \A a, b \in 1..Len(ds.traces) : a # b => <<ds.traces[a].h[3], ds.traces[a].h[4]>> # <<ds.traces[b].h[3], ds.traces[b].h[4]>>
               distinct2 == \A a, b \in 1..Len(ds.traces) : a # b => ds.traces[a].h[2] # ds.traces[b].h[2]
           IN /\ v.kind = (IF distinct3 THEN 3 ELSE IF distinct2 THEN 2 ELSE 1)
              /\ v.kind # 1 => /\ DOMAIN ix = {want(k) : k \in 1..Len(ds.traces)}
                               /\ \A k \in 1..Len(ds.traces) : ix[want(k)] = k - 1
Guess == LET b == TextBytes(ds.text, par.enc) IN GuessEncoding(b) \in {par.enc, "none"}
=============================================================================

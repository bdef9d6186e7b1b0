----------------------------- MODULE SegyFormat ------------------------------
(* The SEG-Y file as a byte sequence and as a dataset, and the two maps between
   them.  All record sizes are constants: the standard's (80 x 40 cards, 400 and
   240 byte headers) for judging the code, a few bytes for exhaustive checking.

   A dataset is a record
     [text   |-> lines (sequences of code points),
      bin    |-> values of the binary header, in the order of its table,
      ext    |-> pages of lines,
      traces |-> sequence of [h |-> header values in table order, s |-> samples]]
   Integer samples are integers; IBM floats and IEEE floats are represented by
   their four bytes, most significant byte first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes, CodePage

CONSTANTS
  CardLen, Cards,       \* card image: characters per card, cards per page
  BinLen, BinBase,      \* length of the binary header, standard's number of its first byte
  BinFields,            \* its table
  THLen, THBase,        \* the same for trace headers, whose tables vary
  StopStanza,           \* text which marks the last extended header page
  SampleWidths          \* function: data sample format code -> bytes per sample

TextLen == CardLen * Cards
ReelLen == TextLen + BinLen

--------------------------------------------------------------------------
(* Record layouts.  A table is a sequence of fields
     [name, off (standard's byte number), w, lo, hi, vals, ...];
   cover tells for every byte of the record which field's which byte it is. *)
MkTable(fields, base, len) ==
  TLCEval([fields |-> fields, base |-> base, len |-> len,
   cover |-> [p \in 1..len |->
               LET S == {k \in 1..Len(fields) : fields[k].off - base < p /\ p <= fields[k].off - base + fields[k].w}
               IN IF S = {} THEN <<0, 0>>
                  ELSE LET k == CHOOSE k \in S : \A q \in S : k <= q IN <<k, p - (fields[k].off - base)>>]])
BinTable == TLCEval(MkTable(BinFields, BinBase, BinLen))
IndexOfField(fields, name) == CHOOSE k \in 1..Len(fields) : fields[k].name = name
HasField(fields, name) == \E k \in 1..Len(fields) : fields[k].name = name
Legal(f, v) == f.lo <= v /\ v <= f.hi /\ (f.vals = {} \/ v \in f.vals)

HeaderBytes(vals, table, endian) ==
  LET enc == TLCEval([k \in 1..Len(table.fields) |-> BytesOf(vals[k], table.fields[k].w, endian)])
  IN TLCEval([p \in 1..table.len |-> IF table.cover[p][1] = 0 THEN 0 ELSE enc[table.cover[p][1]][table.cover[p][2]]])
(* value of field f of the record starting after byte pos *)
FieldAt(bytes, pos, f, base, endian) == IntOf(At(bytes, pos + (f.off - base) + 1, f.w), endian)
HeaderAt(bytes, pos, table, endian) ==
  TLCEval([k \in 1..Len(table.fields) |-> FieldAt(bytes, pos, table.fields[k], table.base, endian)])
LegalHeader(vals, table) == \A k \in 1..Len(table.fields) : Legal(table.fields[k], vals[k])
BinValue(bin, name) == bin[IndexOfField(BinFields, name)]
THValue(h, table, name) == h[IndexOfField(table.fields, name)]

--------------------------------------------------------------------------
(* Text. *)
CardOf(line, enc) == \* one card: encoded, cut or padded with the encoding's spaces
  LET table == EncodingTable(enc)
      n == Len(line)
      space == SpaceByte(enc)
  IN IF n = CardLen THEN TLCEval([k \in 1..CardLen |-> table[line[k]]])
     ELSE TLCEval([k \in 1..CardLen |-> IF k <= n THEN table[line[k]] ELSE space])
TextBytes(lines, enc) ==
  TLCEval(FlattenB([k \in 1..Cards |-> CardOf(IF k <= Len(lines) THEN lines[k] ELSE <<>>, enc)]))
(* every line of the dataset must be representable, cut or not *)
CanEncodeLines(lines, enc) == \A k \in 1..Len(lines) : CanEncodeText(enc, lines[k])
TextLinesAt(bytes, pos, enc) == TLCEval([k \in 1..Cards |-> DecodeText(enc, At(bytes, pos + (k - 1) * CardLen + 1, CardLen))])
TextReadableAt(bytes, pos, enc) == enc = "cp037" \/ \A k \in (pos + 1)..(pos + TextLen) : bytes[k] < 128

PageShaped(page) == Len(page) = Cards /\ \A k \in 1..Cards : Len(page[k]) = CardLen
Contains(s, t) == \E k \in 0..(Len(s) - Len(t)) : SubSeq(s, k + 1, k + Len(t)) = t
IsStopPage(page) == Contains(page[1], StopStanza)

(* The encoding suggested by the bytes of the textual header: the one in which at least half
   of the characters are common, if that holds for exactly one of the two. *)
CountIn(b, S) == Cardinality({k \in 1..Len(b) : b[k] \in S})
GuessEncoding(b) ==
  IF Len(b) = 0 THEN "none"
  ELSE IF \A k \in 1..Len(b) : b[k] = 0 THEN "ascii"
  ELSE LET a == 2 * CountIn(b, CommonIn("ascii")) >= Len(b)
           e == 2 * CountIn(b, CommonIn("cp037")) >= Len(b)
       IN IF a /\ ~e THEN "ascii" ELSE IF e /\ ~a THEN "cp037" ELSE "none"

--------------------------------------------------------------------------
(* Samples. *)
SampleBytes(s, code, endian) == \* one sample
  CASE code = 1 -> s
    [] code = 5 -> IF endian = Big THEN s ELSE Reverse_(s)
    [] OTHER -> BytesOf(s, SampleWidths[code], endian)
SampleAt(bytes, p, code, endian) ==
  LET w == SampleWidths[code]
  IN CASE code = 1 -> At(bytes, p, 4)
       [] code = 5 -> IF endian = Big THEN At(bytes, p, 4) ELSE Reverse_(At(bytes, p, 4))
       [] OTHER -> IntOf(At(bytes, p, w), endian)
SamplesBytes(ss, code, endian) == FlattenB([k \in 1..Len(ss) |-> SampleBytes(ss[k], code, endian)])

--------------------------------------------------------------------------
(* Writing: the complete file of a dataset. *)
Consistent(ds, table) == \* the headers agree with what they describe
  /\ BinValue(ds.bin, "num_extended_textual_headers") \in {Len(ds.ext), -1}
  /\ BinValue(ds.bin, "num_extended_textual_headers") = -1 =>
       Len(ds.ext) > 0 /\ \A k \in 1..Len(ds.ext) : IsStopPage(ds.ext[k]) <=> k = Len(ds.ext)
  /\ \A k \in 1..(Len(ds.ext) - 1) : ~IsStopPage(ds.ext[k])
  /\ \A k \in 1..Len(ds.ext) : PageShaped(ds.ext[k])
  /\ \A k \in 1..Len(ds.traces) : THValue(ds.traces[k].h, table, "num_samples") = Len(ds.traces[k].s)
  /\ Len(ds.text) = Cards /\ \A k \in 1..Cards : Len(ds.text[k]) = CardLen

ReelBytes(ds, enc, endian) ==
  TextBytes(ds.text, enc) \o HeaderBytes(ds.bin, BinTable, endian)
  \o FlattenB([k \in 1..Len(ds.ext) |-> TextBytes(ds.ext[k], enc)])
TraceBytes(tr, code, table, endian) == HeaderBytes(tr.h, table, endian) \o SamplesBytes(tr.s, code, endian)
CodeOf(ds) == BinValue(ds.bin, "data_sample_format")
FileOf(ds, enc, table, endian) ==
  TLCEval(ReelBytes(ds, enc, endian)
    \o FlattenB([k \in 1..Len(ds.traces) |-> TraceBytes(ds.traces[k], CodeOf(ds), table, endian)]))

--------------------------------------------------------------------------
(* Reading: what a reader opened on these bytes presents. *)
RECURSIVE ExtPages(_, _, _, _)
(* pages from byte pos on; want = number still to read or -1 for "until the stop page" *)
ExtPages(bytes, pos, want, enc) ==
  IF want = 0 THEN [bad |-> "", pages |-> <<>>, pos |-> pos]
  ELSE IF pos + TextLen > Len(bytes) THEN [bad |-> "ext_short", pages |-> <<>>, pos |-> pos]
  ELSE IF ~TextReadableAt(bytes, pos, enc) THEN [bad |-> "ext_text", pages |-> <<>>, pos |-> pos]
  ELSE LET page == TextLinesAt(bytes, pos, enc)
           stop == IsStopPage(page)
       IN IF want > 1 /\ stop THEN [bad |-> "ext_early_stop", pages |-> <<>>, pos |-> pos]
          ELSE IF stop THEN [bad |-> "", pages |-> <<page>>, pos |-> pos + TextLen]
          ELSE LET r == ExtPages(bytes, pos + TextLen, IF want < 0 THEN want ELSE want - 1, enc)
               IN [r EXCEPT !.pages = <<page>> \o @]

(* Walk the traces: each starts where the declared samples of the previous one end. *)
RECURSIVE Walk(_, _, _, _, _)
Walk(bytes, pos, table, endian, width) ==
  IF pos + THLen > Len(bytes) THEN [bad |-> "", offs |-> <<>>, lens |-> <<>>, end |-> pos]
  ELSE LET f == table.fields[IndexOfField(table.fields, "num_samples")]
           n == FieldAt(bytes, pos, f, table.base, endian)
       IN IF ~Legal(f, n) THEN [bad |-> "num_samples", offs |-> <<>>, lens |-> <<>>, end |-> pos]
          ELSE LET r == Walk(bytes, pos + THLen + n * width, table, endian, width)
               IN [r EXCEPT !.offs = <<pos>> \o @, !.lens = <<n>> \o @]

Refused(why) == [ok |-> FALSE, why |-> why]
Distinct(seq) == Cardinality({seq[k] : k \in 1..Len(seq)}) = Len(seq)
HasLines(table) == HasField(table.fields, "inline_number") /\ HasField(table.fields, "crossline_number")

(* enc is "none" when it is to be guessed, dim is 0 when it is to be derived *)
View(bytes, enc0, table, endian, dim) ==
  IF Len(bytes) < ReelLen THEN Refused("short")
  ELSE LET g == GuessEncoding(SubSeq(bytes, 1, TextLen))
           enc == IF enc0 # "none" THEN enc0 ELSE IF g = "none" THEN "ascii" ELSE g
       IN IF ~TextReadableAt(bytes, 0, enc) THEN Refused("text")
          ELSE LET bin == HeaderAt(bytes, TextLen, BinTable, endian)
               IN IF ~LegalHeader(bin, BinTable) THEN Refused("binary_header")
                  ELSE LET ex == ExtPages(bytes, ReelLen, BinValue(bin, "num_extended_textual_headers"), enc)
                       IN IF ex.bad # "" THEN Refused(ex.bad)
                          ELSE LET code == BinValue(bin, "data_sample_format")
                                   w == Walk(bytes, ex.pos, table, endian, SampleWidths[code])
                               IN IF w.bad # "" THEN Refused(w.bad)
                                  ELSE LET n == Len(w.offs)
                                           key(name) == [k \in 1..n |-> FieldAt(bytes, w.offs[k], table.fields[IndexOfField(table.fields, name)], table.base, endian)]
                                           cdps == TLCEval(key("ensemble_num"))
                                           lines == TLCEval(IF HasLines(table) THEN LET a == key("inline_number") b == key("crossline_number")
                                                                            IN [k \in 1..n |-> <<a[k], b[k]>>] ELSE <<>>)
                                           d == IF dim # 0 THEN dim
                                                ELSE IF HasLines(table) /\ Distinct(lines) THEN 3
                                                ELSE IF Distinct(cdps) THEN 2 ELSE 1
                                       IN [ok |-> TRUE, enc |-> enc, endian |-> endian, table |-> table, code |-> code,
                                           text |-> TextLinesAt(bytes, 0, enc), bin |-> bin, ext |-> ex.pages, start |-> ex.pos,
                                           offs |-> w.offs, lens |-> w.lens, cdps |-> cdps, lines |-> lines, kind |-> d]

RECURSIVE AscendingSet(_)
AscendingSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o AscendingSet(S \ {m})
NumTraces(v) == Len(v.offs)
MaxOf(seq) == IF Len(seq) = 0 THEN 0 ELSE CHOOSE m \in {seq[k] : k \in 1..Len(seq)} : \A j \in 1..Len(seq) : seq[j] <= m
(* The index: a function from keys to trace indexes, empty when the keys are not unique *)
IndexOf(v) ==
  LET keys == IF v.kind = 3 THEN v.lines ELSE IF v.kind = 2 THEN v.cdps ELSE <<>>
      usable == Distinct(keys) /\ Len(keys) = NumTraces(v)
  IN TLCEval([x \in (IF usable THEN {keys[k] : k \in 1..Len(keys)} ELSE {}) |-> (CHOOSE k \in 1..Len(keys) : keys[k] = x) - 1])
ReportedDimensionality(v) == IF v.kind \in {2, 3} THEN v.kind ELSE IF NumTraces(v) = 1 THEN 1 ELSE 0

(* Reads by trace index (0-based); ranges are <<start, stop>> with absent ends as <<>> *)
Outcome(x) == [k |-> "ok", v |-> x]
Error(name) == [k |-> "error", name |-> name]
HeaderOutcome(bytes, v, t) ==
  IF t < 0 \/ t >= NumTraces(v) THEN Error("ValueError")
  ELSE IF v.offs[t + 1] + THLen > Len(bytes) THEN Error("EOFError")
  ELSE LET h == HeaderAt(bytes, v.offs[t + 1], v.table, v.endian)
       IN IF LegalHeader(h, v.table) THEN Outcome(h) ELSE Error("invalid_field")
SamplesOutcome(bytes, v, t, start, stop) ==
  IF t < 0 \/ t >= NumTraces(v) THEN Error("ValueError")
  ELSE LET n == v.lens[t + 1]
           b == IF start = <<>> THEN 0 ELSE start[1]
           e == IF stop = <<>> THEN n ELSE stop[1]
           w == SampleWidths[v.code]
           pos == v.offs[t + 1] + THLen
       IN IF ~(0 <= e /\ e <= n /\ 0 <= b /\ b <= e) THEN Error("ValueError")
          ELSE IF e > b /\ pos + e * w > Len(bytes) THEN Error("EOFError")
          ELSE Outcome(TLCEval([k \in 1..(e - b) |-> SampleAt(bytes, pos + (b + k - 1) * w + 1, v.code, v.endian)]))

(* The dataset a reader presents.  Traces whose samples are not all in the file have none here. *)
DatasetOf(bytes, v) ==
  TLCEval([text |-> v.text, bin |-> v.bin, ext |-> v.ext,
   traces |-> [k \in 1..NumTraces(v) |-> [h |-> HeaderAt(bytes, v.offs[k], v.table, v.endian),
                                          s |-> LET o == SamplesOutcome(bytes, v, k - 1, <<>>, <<>>) IN IF o.k = "ok" THEN o.v ELSE <<>>]]])
HasAllBytes(bytes, v) == NumTraces(v) = 0 \/ v.offs[NumTraces(v)] + THLen + v.lens[NumTraces(v)] * SampleWidths[v.code] <= Len(bytes)
=============================================================================

------------------------------ MODULE TraceSegy ------------------------------
(* Judges recorded sessions with SEG-Y files against SegyFormat.

   The state holds what the specification knows: the datasets given to the
   writer, the bytes of every file (as they really are, so that reading is
   judged on the actual bytes even after a wrong write), the record layouts in
   use, and for every open reader the view the specification gives of it. *)
EXTENDS TraceBase, SegyFormat, SegyReal, TextHeader

SE == INSTANCE SequencesExt
Pk == INSTANCE Pickle

(* what a dataset says besides its content: "none" when it has no such attribute, "null" when that is None *)
NoAttrs == [enc |-> "none", endian |-> "none", dim |-> 0]
Init0 == [files |-> <<>>, ds |-> <<>>, attrs |-> NoAttrs, dstable |-> "rev1", readers |-> <<>>, derived |-> <<>>, entries |-> <<>>, opened |-> {}, views |-> <<>>,
          world |-> Pk!World("a", "home"), shown |-> <<>>,
          tables |-> [rev0 |-> MkTable(TraceHeader0Table, 1, 240), rev1 |-> MkTable(TraceHeader1Table, 1, 240)]]

(* functions with string or integer domains which grow as the session goes on *)
With(f, key, value) == (key :> value) @@ f
FieldsOf(fs) == [k \in 1..Len(fs) |-> [fs[k] EXCEPT !.vals = {fs[k].vals[j] : j \in 1..Len(fs[k].vals)}]]

(* views are kept, as the same file is often opened again; the dimensionality asked for only decides the kind *)
ViewKey(ev) == <<ev.file, ev.enc, ev.endian, ev.table>>
BaseView(s, ev) == IF ViewKey(ev) \in DOMAIN s.views THEN s.views[ViewKey(ev)]
                   ELSE TLCEval(View(s.files[ev.file], ev.enc, s.tables[ev.table], ev.endian, 0))
\* the commands open files with the defaults
CliEvent(ev) == [file |-> ev.file, enc |-> "none", endian |-> Big, table |-> "rev1", dim |-> 0]
OfDim(v, dim) == IF v.ok /\ dim # 0 THEN [v EXCEPT !.kind = dim] ELSE v
ViewFor(s, ev) == OfDim(BaseView(s, ev), ev.dim)

(* Opens through a cache (fields loc, made, foreign, ..): key is what an entry stands for apart
   from the dimensionality, which the code leaves out of it (the known finding kf_dim_shared):
   the reader may then have the dimensionality of an earlier open with the same key. *)
KeyFor(ev) == [file |-> ev.file, enc |-> ev.enc, endian |-> ev.endian, table |-> ev.table, bin |-> ev.bin]
OtherDims(s, ev) == {o.dim : o \in {x \in s.opened : x.key = KeyFor(ev)}}
Deviations(s, ev, base) == IF Has(ev, "loc") /\ IsOk(ev.res) /\ base.ok
                           THEN {d \in OtherDims(s, ev) : OfDim(base, ev.dim).kind # ev.res.v.kind /\ OfDim(base, d).kind = ev.res.v.kind} ELSE {}
OpenedView(s, ev, base) == LET ds == Deviations(s, ev, base) IN OfDim(base, IF ds = {} THEN ev.dim ELSE CHOOSE d \in ds : TRUE)
Opened(s, ev) == LET base == TLCEval(BaseView(s, ev))
                     t == [s EXCEPT !.views = IF ViewKey(ev) \in DOMAIN @ THEN @ ELSE TLCEval(With(@, ViewKey(ev), base)),
                                    !.readers = IF IsOk(ev.res) THEN TLCEval(With(@, ev.reader, [file |-> ev.file, view |-> OpenedView(s, ev, base)])) ELSE @]
                     me == [key |-> KeyFor(ev), dim |-> ev.dim]
                 IN IF ~Has(ev, "loc") THEN t
                    ELSE [t EXCEPT !.opened = @ \cup {me}, !.entries = TLCEval([n \in {ev.made[k] : k \in 1..Len(ev.made)} |-> me] @@ @)]
NewFile(s, name, bytes) == [s EXCEPT !.files = TLCEval(With(s.files, name, bytes)), !.views = TLCEval([k \in {x \in DOMAIN @ : x[1] # name} |-> @[k]])]

(* Datasets: the one given to the driver, what a reader presents, or one of these
   seen through datasets which delegate and override some aspects. *)
Dg == INSTANCE Delegate
ExposedBy(s, kind, rid) ==
  CASE kind = "ds" -> Dg!Exposure(s.ds, s.attrs.enc, s.attrs.endian, s.attrs.dim, FALSE)
    [] kind = "reader" -> (LET r == s.readers[rid] IN Dg!Exposure(DatasetOf(s.files[r.file], r.view), r.view.enc, r.view.endian, ReportedDimensionality(r.view), TRUE))
    [] OTHER -> s.derived[kind]

Apply(s, ev) ==
  CASE ev.op = "begin" -> [s EXCEPT !.files = <<>>, !.ds = <<>>, !.readers = <<>>, !.derived = <<>>, !.entries = <<>>, !.opened = {}, !.views = <<>>, !.world = Pk!World("a", "home"), !.shown = <<>>]
    [] ev.op = "format" -> [s EXCEPT !.tables = TLCEval(With(s.tables, ev.name, MkTable(FieldsOf(ev.fields), 1, 240)))]
    [] ev.op = "dataset" -> [s EXCEPT !.ds = ev.ds, !.dstable = ev.table, !.attrs = IF Has(ev, "attrs") THEN ev.attrs ELSE NoAttrs]
    [] ev.op = "file" -> NewFile(s, ev.file, ev.bytes)
    [] ev.op = "write" -> NewFile(s, ev.file, ev.bytes)
    [] ev.op = "cli" /\ ev.file # "missing" /\ ViewKey(CliEvent(ev)) \notin DOMAIN s.views ->
         [s EXCEPT !.views = LET base == TLCEval(BaseView(s, CliEvent(ev))) IN TLCEval(With(@, ViewKey(CliEvent(ev)), base))]
    [] ev.op = "cut" -> NewFile(s, ev.file, SubSeq(s.files[ev.source], 1, ev.at))
    [] ev.op = "open" -> LET t == Opened(s, ev) IN IF Has(ev, "face") /\ IsOk(ev.res) THEN [t EXCEPT !.world = TLCEval(Pk!Opened(@, ev.reader, ev.face))] ELSE t
    (* the lives of readers and pickles; shown: the reader a pickle was made of and what it showed *)
    [] ev.op = "p_close" -> [s EXCEPT !.world = TLCEval(Pk!Closed(@, ev.reader))]
    [] ev.op = "p_dump" -> IF IsOk(ev.res) THEN [s EXCEPT !.world = TLCEval(Pk!Dumped(@, ev.reader, ev.blob, ev.version)),
                                                         !.shown = TLCEval(With(@, ev.blob, [reader |-> s.readers[ev.reader], view |-> ev.view]))] ELSE s
    [] ev.op = "p_load" -> IF IsOk(ev.res) THEN [s EXCEPT !.world = TLCEval(Pk!Loaded(@, ev.blob, ev.reader)),
                                                         !.readers = TLCEval(With(@, ev.reader, s.shown[ev.blob].reader))] ELSE s
    [] ev.op = "p_move" -> [s EXCEPT !.world = Pk!Moved(@, ev.to)]
    [] ev.op = "p_go" -> [s EXCEPT !.world = Pk!Went(@, ev.to)]
    [] ev.op = "relocate" -> [s EXCEPT !.entries = TLCEval([n \in {ev.names[k][2] : k \in 1..Len(ev.names)} |-> @[(ev.names[CHOOSE k \in 1..Len(ev.names) : ev.names[k][2] = n])[1]]])]
    (* a reader which has been pickled and restored is in the state it was in *)
    [] ev.op = "repickle" -> IF ev.of \in DOMAIN s.readers THEN [s EXCEPT !.readers = TLCEval(With(s.readers, ev.reader, s.readers[ev.of]))] ELSE s
    [] ev.op = "derive" -> [s EXCEPT !.derived = TLCEval(With(s.derived, ev.name, Dg!Derive(ExposedBy(s, ev.source, ev.rid), ev.over)))]
    [] OTHER -> s

--------------------------------------------------------------------------
(* Progress reports (log entries <<3, floor(p * 2^30), floor(rest * 2^30)>>; <<4, ..>> is not a number). *)
Reports(log) == SelectSeq(log, LAMBDA e : e[1] >= 3)
LeP(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[3] <= q[3])
OneP == <<3, 1073741824, 0>>
ZeroP == <<3, 0, 0>>
ReportsInRange(rs) == \A k \in 1..Len(rs) : rs[k][1] = 3 /\ LeP(ZeroP, rs[k]) /\ LeP(rs[k], OneP)
ReportsMonotone(rs) == \A k \in 1..(Len(rs) - 1) : LeP(rs[k], rs[k + 1])
EndsAtOne(rs) == Len(rs) > 0 /\ rs[Len(rs)] = OneP
ProgressClauses(ev, completed) ==
  IF ~ev.reporting THEN NoClauses
  ELSE LET rs == Reports(ev.log)
       IN [progress_in_range |-> ReportsInRange(rs), progress_monotone |-> ReportsMonotone(rs),
           progress_ends_at_one |-> completed => EndsAtOne(rs)]

(* Writing. *)
Rf == INSTANCE Refusal
Source(s, ev) == CASE ev.source = "ds" -> s.ds
                   [] ev.source = "reader" -> (LET r == s.readers[ev.rid] IN DatasetOf(s.files[r.file], r.view))
                   [] OTHER -> Dg!Written(s.derived[ev.source])
(* the encoding the dataset has, if any *)
SaidEnc(s, ev) == IF ev.source \in {"ds", "reader"} THEN ev.denc ELSE s.derived[ev.source].enc
WriteEnc(s, ev) == IF ev.enc # "none" THEN ev.enc ELSE IF SaidEnc(s, ev) \notin {"none", "null"} THEN SaidEnc(s, ev) ELSE "ascii"
Texts(ds) == Append(ds.ext, ds.text)
Encodable(ds, enc) == \A k \in 1..Len(Texts(ds)) : CanEncodeLines(Texts(ds)[k], enc)
Writes(log) == SelectSeq(log, LAMBDA e : e[1] = 0)
Asks(log) == SelectSeq(log, LAMBDA e : e[1] \in {1, 2})
(* every write starts where the file ends *)
RECURSIVE AppendOnly(_, _)
AppendOnly(ws, len) == ws = <<>> \/ (ws[1][2] = len /\ AppendOnly(Tail(ws), len + ws[1][3]))
(* LensBefore(log)[k]: the length of the file when log entry k happened *)
LensBefore(log) == SE!FoldLeft(LAMBDA acc, e : Append(acc, acc[Len(acc)] + (IF e[1] = 0 THEN e[3] ELSE 0)), <<0>>, log)
(* TraceStarts(ds, from)[t + 1]: where trace t starts *)
TraceStarts(ds, from) == LET w == SampleWidths[CodeOf(ds)]
                         IN SE!FoldLeft(LAMBDA acc, tr : Append(acc, acc[Len(acc)] + 240 + Len(tr.s) * w), <<from>>, ds.traces)
ReelSize(ds) == ReelLen + TextLen * Len(ds.ext)

(* reasons to refuse a dataset or the arguments; the first two are found before anything is written *)
EarlyRefusals(s, ev) == (IF Has(ev, "bad_progress") THEN Rf!RefusalOf("progress") ELSE {})
                     \cup (IF WriteEnc(s, ev) \notin Encodings THEN Rf!RefusalOf("encoding") ELSE {})
LateRefusals(ds, gone, enc, ev, table) == (IF ~Has(ev, "mismatch") /\ \E k \in 1..Len(ds.traces) : ~LegalHeader(ds.traces[k].h, table) THEN {"ValueError", "EOFError"} ELSE {}) \cup
                              (IF Has(ev, "mismatch") /\ Len(ds.traces) > 0 THEN Rf!RefusalOf("mismatch") ELSE {})
                             \cup (IF \E k \in 1..Len(ds.ext) : ~PageShaped(ds.ext[k]) THEN Rf!RefusalOf("shape") ELSE {})
                             \cup (IF ~Encodable(ds, enc) THEN Rf!RefusalOf("text") ELSE {})
                             \cup (IF gone THEN {"EOFError"} ELSE {})
(* the source is a reader of a file which ends before its samples do *)
SourceCutShort(s, ev) == ev.source = "reader" /\ LET r == s.readers[ev.rid] IN ~HasAllBytes(s.files[r.file], r.view)
WriteClauses(s, ev) ==
  LET enc == WriteEnc(s, ev)
      ds == TLCEval(Source(s, ev))
      table == s.tables[ev.table]
      early == EarlyRefusals(s, ev)
      late == TLCEval(LateRefusals(ds, SourceCutShort(s, ev), enc, ev, table))
      fired == ev.fired # "none"
  IN IF early # {}
     THEN [bad_argument_refused |-> RaisedAny(ev.res, early), nothing_written |-> ev.bytes = <<>>]
     ELSE IF late # {}
     THEN [bad_data_refused |-> fired \/ RaisedAny(ev.res, late), append_only |-> AppendOnly(Writes(ev.log), 0)]
     ELSE LET full == TLCEval(FileOf(ds, enc, table, ev.endian))
              asks == TLCEval(Asks(ev.log))
          IN [write_completes |-> ~fired => IsOk(ev.res) /\ ev.res.v,
              written_bytes |-> ~fired => ev.bytes = full,
              textual_header_bytes |-> ~fired /\ Len(ev.bytes) >= TextLen => SubSeq(ev.bytes, 1, TextLen) = SubSeq(full, 1, TextLen),
              binary_header_bytes |-> ~fired /\ Len(ev.bytes) >= ReelLen => SubSeq(ev.bytes, TextLen + 1, ReelLen) = SubSeq(full, TextLen + 1, ReelLen),
              prefix_of_complete_file |-> fired => IsPrefixOf(ev.bytes, full),
              append_only |-> AppendOnly(Writes(ev.log), 0),
              asks_in_order |-> /\ \A k \in 1..(Len(asks) - 1) : asks[k][2] <= asks[k + 1][2]
                                /\ (ev.source = "ds" /\ IsOk(ev.res)) =>
                                      /\ Len(asks) = 2 * Len(ds.traces)
                                      /\ {<<asks[k][1], asks[k][2]>> : k \in 1..Len(asks)} = {1, 2} \X (0..(Len(ds.traces) - 1)),
              streams |-> LET before == TLCEval(LensBefore(ev.log))
                              starts == TLCEval(TraceStarts(ds, ReelSize(ds)))
                          IN \A k \in 1..Len(ev.log) : ev.log[k][1] \in {1, 2} /\ ev.log[k][2] < Len(ds.traces)
                                => before[k] >= starts[ev.log[k][2] + 1],
              error_propagates |-> fired => Raised(ev.res, ev.fired)]
             @@ ProgressClauses(ev, IsOk(ev.res))

(* Opening. *)
OpenErrors(why) == CASE why = "short" -> {"ValueError"}
                     [] why = "text" -> {"UnicodeError", "ValueError"}
                     [] why = "binary_header" -> {"ValueError"}
                     [] why = "ext_short" -> {"EOFError"}
                     [] why = "ext_text" -> {"UnicodeError", "ValueError"}
                     [] why = "ext_early_stop" -> {"ValueError"}
                     [] why = "num_samples" -> {"ValueError"}
OpenClauses(s, ev, base) ==
  LET v == OpenedView(s, ev, base)
      x == ev.res.v
  IN IF ev.fired # "none" THEN [error_propagates |-> Raised(ev.res, ev.fired)]
     ELSE IF ~v.ok THEN [unsuitable_file_refused |-> RaisedAny(ev.res, OpenErrors(v.why)),
                    refusal_progress |-> ev.reporting => ReportsInRange(Reports(ev.log)) /\ ReportsMonotone(Reports(ev.log))]
     ELSE IF ~IsOk(ev.res) THEN [opens |-> FALSE]
     ELSE [opens |-> TRUE,
           trace_count |-> x.num_traces = NumTraces(v) /\ x.indexes = [k \in 1..NumTraces(v) |-> k - 1],
           trace_lengths |-> x.lens = v.lens,
           max_samples |-> x.max = MaxOf(v.lens),
           text |-> x.text = v.text,
           binary_header |-> x.bin = v.bin,
           extended_headers |-> x.ext = v.ext,
           kind |-> x.kind = v.kind,
           dimensionality |-> x.dimensionality = ReportedDimensionality(v),
           encoding |-> x.encoding = v.enc,
           endian |-> x.endian = v.endian,
           revision |-> x.revision = BinValue(v.bin, "format_revision_num"),
           sample_format |-> x.bps = SampleWidths[v.code] /\ x.sample_format = SampleTypeName(v.code),
           header_format |-> x.same_format,
           field_names |-> ev.names = [k \in 1..Len(v.table.fields) |-> v.table.fields[k].name]]
          @@ ProgressClauses(ev, TRUE)

CachedOpenClauses(s, ev) ==
  LET base == TLCEval(BaseView(s, ev))
      foreign == {s.entries[ev.foreign[k]] : k \in {j \in 1..Len(ev.foreign) : ev.foreign[j] \in DOMAIN s.entries}}
      mine == {e \in foreign : e.key = KeyFor(ev)}
  IN [files_intact |-> ev.intact]
     @@ (IF \E e \in mine : e.dim = ev.dim THEN [foreign_entry_reported |-> Raised(ev.res, "TypeError")]
         ELSE IF mine # {} /\ Raised(ev.res, "TypeError") THEN NoClauses
         ELSE OpenClauses(s, ev, base) @@ [kf_dim_shared |-> Deviations(s, ev, base) = {},
                                     own_file |-> IsOk(ev.res) => ev.same_file, own_header_class |-> IsOk(ev.res) => ev.same_bin])

(* Reading. *)
Matches(out, r) ==
  IF out.k = "ok" THEN Returned(r, out.v)
  ELSE IF out.name = "invalid_field" THEN RaisedAny(r, {"ValueError", "EOFError"})
  ELSE Raised(r, out.name)
(* positions in the table of the named fields *)
Places(table, nms) == IF Len(nms) = Len(table.fields) /\ \A k \in 1..Len(nms) : nms[k] = table.fields[k].name
                      THEN [k \in 1..Len(nms) |-> k] ELSE [k \in 1..Len(nms) |-> IndexOfField(table.fields, nms[k])]
HeaderFor(s, ev, t, nms) == \* outcome restricted to the fields asked for
  LET rd == s.readers[ev.reader]
      b == s.files[rd.file]
      v == rd.view
  IN IF t < 0 \/ t >= NumTraces(v) THEN Error("ValueError")
     ELSE IF v.offs[t + 1] + THLen > Len(b) THEN Error("EOFError")
     ELSE LET h == HeaderAt(b, v.offs[t + 1], v.table, v.endian)
              ks == TLCEval(Places(v.table, nms))
          IN IF \A k \in 1..Len(ks) : Legal(v.table.fields[ks[k]], h[ks[k]]) THEN Outcome([k \in 1..Len(ks) |-> h[ks[k]]]) ELSE Error("invalid_field")
SamplesFor(s, ev, t, a, b) == LET rd == s.readers[ev.reader] IN SamplesOutcome(s.files[rd.file], rd.view, t, a, b)

IndexClauses(s, ev) ==
  LET v == s.readers[ev.reader].view
      ix == IndexOf(v)
      Comp(a) == AscendingSet({key[a] : key \in DOMAIN ix})
  IN [index_kind |-> ev.kind = v.kind,
      line_numbers |-> ev.kind = 3 /\ v.kind = 3 => /\ Returned(ev.a, Comp(1)) /\ Returned(ev.b, Comp(2))
                                       /\ Returned(ev.na, Len(Comp(1))) /\ Returned(ev.nb, Len(Comp(2))),
      line_keys |-> ev.kind = 3 /\ v.kind = 3 => /\ IsOk(ev.keys) /\ Len(ev.keys.v) = Cardinality(DOMAIN ix)
                                    /\ {ev.keys.v[k] : k \in 1..Len(ev.keys.v)} = DOMAIN ix,
      cdp_numbers |-> ev.kind = 2 /\ v.kind = 2 => /\ Returned(ev.a, AscendingSet(DOMAIN ix)) /\ Returned(ev.na, Cardinality(DOMAIN ix)),
      index_lookup |-> ev.kind = v.kind => \A k \in 1..Len(ev.probes) :
           LET p == ev.probes[k]
               key == IF v.kind = 2 THEN p.key[1] ELSE p.key
           IN IF key \in DOMAIN ix THEN Returned(p.has, TRUE) /\ Returned(p.t, ix[key])
              ELSE Returned(p.has, FALSE) /\ RaisedAny(p.t, {"KeyError", "ValueError"})]

(* Opens with a set of things wrong with the file or the arguments, which may be none. *)
SetOf(seq) == {seq[k] : k \in 1..Len(seq)}
BadOpenClauses(s, ev) ==
  IF ev.reasons = <<>> THEN [accepted |-> IsOk(ev.res), file_intact |-> ev.intact]
  ELSE
  [refused |-> RaisedAny(ev.res, Rf!Refusals(SetOf(ev.reasons))),
   position_kept |-> ev.after = ev.before,
   file_intact |-> ev.intact,
   nothing_cached |-> ev.entries = 0]

(* What a dataset exposes. *)
Said(res, x) == IF x = "none" THEN Raised(res, "AttributeError") ELSE Returned(res, x)
ExposeClauses(s, ev) ==
  LET x == TLCEval(ExposedBy(s, ev.source, ev.rid))
      n == Len(x.traces)
      part(p) == Dg!PartOutcome(x.traces[p.t + 1], p.start, p.stop)
  IN [exposes_text |-> Returned(ev.text, x.text), exposes_binary_header |-> Returned(ev.bin, x.bin), exposes_ext |-> Returned(ev.ext, x.ext),
      exposes_count |-> Returned(ev.num, x.num),
      exposes_indexes |-> Returned(ev.indexes, x.indexes),
      exposes_encoding |-> Said(ev.enc, x.enc),
      exposes_endian |-> Said(ev.endian, x.endian),
      exposes_dimensionality |-> Returned(ev.dim, x.dim),
      exposes_format |-> Returned(ev.format, SampleTypeName(CodeOf(x))) /\ Returned(ev.description, SampleDescription(CodeOf(x))),
      exposes_source |-> ev.own_source,
      exposes_headers |-> Len(ev.headers) = n /\ \A k \in 1..Len(ev.headers) : k <= n => Returned(ev.headers[k], x.traces[k].h),
      exposes_samples |-> Len(ev.samples) = n /\ \A k \in 1..Len(ev.samples) : k <= n => Returned(ev.samples[k], x.traces[k].s),
      exposes_parts |-> \A k \in 1..Len(ev.parts) : Matches(part(ev.parts[k]), ev.parts[k].res),
      \* a trace which no level overrides is refused as the first dataset refuses it
      exposes_absence |-> \A k \in 1..Len(ev.absent) : IF ev.strict THEN Raised(ev.absent[k], "ValueError") ELSE IsExc(ev.absent[k])]

(* Text headers on their own.  before is the length of the file when writing starts, pos the position afterwards. *)
TextClauses(ev) ==
  CASE ev.op = "t_write" ->
         LET lines == Considered(ev.lines)
         IN IF ev.enc \notin Encodings
            THEN [encoding_refused |-> Raised(ev.res, "UnsupportedEncodingError"), nothing_written |-> ev.bytes = <<>>]
            ELSE IF ~CanEncodeLines(lines, ev.enc)
            THEN [text_refused |-> Raised(ev.res, "UnicodeError"), nothing_written |-> ev.bytes = <<>>]
            ELSE [text_written |-> IsOk(ev.res), card_bytes |-> ev.bytes = TextBytes(lines, ev.enc), position_after |-> ev.pos = ev.before + TextLen]
    [] ev.op = "t_read" ->
         IF Len(ev.bytes) < TextLen THEN [short_refused |-> Raised(ev.res, "EOFError")]
         ELSE IF ~TextReadableAt(ev.bytes, 0, ev.enc) THEN [undecodable_refused |-> RaisedAny(ev.res, {"UnicodeError", "ValueError"})]
         ELSE [cards_read |-> Returned(ev.res, TextLinesAt(ev.bytes, 0, ev.enc)), position_after |-> ev.pos = ev.before + TextLen]
    [] ev.op = "t_guess" ->
         LET b == IF Len(ev.bytes) > TextLen THEN SubSeq(ev.bytes, 1, TextLen) ELSE ev.bytes
         IN [guess |-> Returned(ev.res, GuessEncoding(b)), position_kept |-> ev.pos = ev.before]
    [] ev.op = "t_format" ->
         IF ev.enc \notin Encodings THEN [encoding_refused |-> Raised(ev.res, "UnsupportedEncodingError")]
         ELSE [pages_formatted |-> Returned(ev.res, ExtFormat(ev.text, ev.stop))]
    [] ev.op = "t_extwrite" ->
         IF ev.enc \notin Encodings
            THEN [encoding_refused |-> Raised(ev.res, "UnsupportedEncodingError"), nothing_written |-> ev.bytes = <<>>]
         ELSE LET wrong == (IF PagesShaped(ev.pages) THEN {} ELSE {"ValueError"}) \cup (IF PagesEncodable(ev.pages, ev.enc) THEN {} ELSE {"UnicodeError"})
              IN IF wrong # {}
                 THEN [pages_refused |-> RaisedAny(ev.res, wrong), nothing_written |-> ev.bytes = <<>>]
                 ELSE [pages_written |-> IsOk(ev.res) /\ ev.bytes = PagesBytes(ev.pages, ev.enc), position_after |-> ev.pos = ReelLen + TextLen * Len(ev.pages)]
    [] ev.op = "t_extread" -> \* bytes: what follows the binary header; relative positions
         LET r == TLCEval(ExtPages(Zeros(ReelLen) \o ev.bytes, ReelLen, ev.want, ev.enc))
         IN IF ev.want < -1 THEN NoClauses
            ELSE IF r.bad # "" THEN [pages_not_there_refused |-> RaisedAny(ev.res, OpenErrors(r.bad))]
            ELSE [pages_read |-> Returned(ev.res, r.pages), position_after |-> ev.pos = r.pos]
    [] ev.op = "t_std" ->
         LET known == \A k \in 1..Len(ev.names) : ev.names[k] \in SlotNames
             named(n) == \E k \in 1..Len(ev.names) : ev.names[k] = n
             value == TLCEval([n \in SlotNames |-> IF named(n) THEN ev.values[CHOOSE k \in 1..Len(ev.names) : ev.names[k] = n]
                                           ELSE IF n = "end_marker" THEN EndMarker[ev.revision] ELSE <<>>])
         IN IF ~known THEN [unknown_name_refused |-> Raised(ev.res, "TypeError")]
            ELSE [standard_header |-> Returned(ev.res, StdFormat(value))]
    [] ev.op = "t_parse" ->
         IF Len(ev.lines) # Cards \/ \E k \in 1..Len(ev.lines) : Len(ev.lines[k]) # CardLen
         THEN [shape_refused |-> Raised(ev.res, "ValueError")]
         ELSE [parsed |-> IsOk(ev.res) /\ ev.res.v.names = [k \in 1..Len(CardSlots) |-> CardSlots[k].name] /\ ev.res.v.values = StdParse(ev.lines)]

(* Arrays extracted from a reader.  A cell of samples is a number, or four bytes for floating
   point; masked cells are told by mask, where vals means nothing. *)
X == INSTANCE Extract
DTypeOf(code) == CASE code \in {1, 5} -> <<"f", 4>> [] OTHER -> <<"i", SampleWidths[code]>>
IsNaNBytes(b) == (b[1] % 128) * 256 + b[2] > 32640 \/ ((b[1] % 128) * 256 + b[2] = 32640 /\ (b[3] > 0 \/ b[4] > 0))
SameSample(code, stored, cell) == CASE code = 1 -> X!SameF32(X!F32OfIbm(stored), cell)
                                    [] code = 5 -> stored = cell \/ (IsNaNBytes(stored) /\ IsNaNBytes(cell))
                                    [] OTHER -> stored = cell
StoredAt(b, v, place) == SampleAt(b, v.offs[place[1] + 1] + THLen + place[2] * SampleWidths[v.code] + 1, v.code, v.endian)
FieldStored(b, v, t, name) == FieldAt(b, v.offs[t + 1], v.table.fields[IndexOfField(v.table.fields, name)], v.table.base, v.endian)
PlaneHolds(ev, arr, e, Same(_, _)) ==
  [array_shape |-> arr.shape = <<Len(e.rows), Len(e.cols)>>,
   array_cells |-> arr.shape = <<Len(e.rows), Len(e.cols)>> => \A x \in 1..Len(e.rows), y \in 1..Len(e.cols) :
                      e.cells[x][y] # <<>> => arr.mask[x][y] = 0 /\ Same(e.cells[x][y], arr.vals[x][y]),
   array_nulls |-> /\ arr.masked = (ev.null = <<>>)
                   /\ arr.shape = <<Len(e.rows), Len(e.cols)>> => \A x \in 1..Len(e.rows), y \in 1..Len(e.cols) :
                        e.cells[x][y] = <<>> => IF ev.null = <<>> THEN arr.mask[x][y] = 1 ELSE arr.mask[x][y] = 0 /\ arr.vals[x][y] = ev.null[1]]
(* selectors of descending slices: the numbers as sliced, or in increasing order *)
Rising(sel, nums) == IF ~(sel.k = "slice" /\ sel.step < 0) THEN sel ELSE LET r == X!Resolve(sel, nums) IN IF r.k = "ok" THEN X!Items(r.v) ELSE sel
Candidates(sv, ev) == LET axes == X!Axes(sv, ev.what)
                          As == {ev.a, Rising(ev.a, axes[1])}
                          Bs == {ev.b, Rising(ev.b, axes[2])}
                      IN {X!Extracted(sv, ev.what, ev.number, a, b) : a \in As, b \in Bs}
AllTrue(cl) == \A c \in DOMAIN cl : cl[c]
ExtractClauses(s, ev) ==
  LET rd == s.readers[ev.reader]
      v == rd.view
      b == s.files[rd.file]
      sv == TLCEval([ix |-> IndexOf(v), lens |-> v.lens])
      Stored(place, cell) == SameSample(v.code, StoredAt(b, v, place), cell)
  IN CASE ev.what = "trace" ->
            IF ev.number < 0 \/ ev.number >= NumTraces(v) THEN [extraction_refused |-> Raised(ev.res, "ValueError")]
            ELSE LET nums == X!UpTo(v.lens[ev.number + 1])
                     r == X!Resolve(ev.b, nums)
                     Holds(q) == ev.res.v.shape = <<Len(q)>> /\ ~ev.res.v.masked /\ \A k \in 1..Len(q) : Stored(<<ev.number, q[k]>>, ev.res.v.vals[k])
                 IN IF r.k # "ok" THEN [extraction_refused |-> Raised(ev.res, "ValueError")]
                    ELSE IF ~IsOk(ev.res) THEN [extracts |-> FALSE]
                    ELSE [trace_cells |-> Holds(r.v) \/ Holds(X!Resolve(Rising(ev.b, nums), nums).v), array_type |-> ev.res.v.dtype = DTypeOf(v.code)]
       [] ev.what = "rows" -> \* header fields of a series of traces
            LET q == IF ev.a.k = "all" THEN X!UpTo(NumTraces(v)) ELSE ev.a.items
            IN IF \E k \in 1..Len(q) : q[k] < 0 \/ q[k] >= NumTraces(v) THEN [extraction_refused |-> Raised(ev.res, "ValueError")]
               ELSE IF ~IsOk(ev.res) THEN [extracts |-> FALSE]
               ELSE [array_names |-> ev.res.v.names = ev.names,
                     trace_cells |-> Len(ev.res.v.arrays) = Len(ev.names) /\ \A j \in 1..Len(ev.names) :
                        LET arr == ev.res.v.arrays[j] IN arr.shape = <<Len(q)>> /\ \A k \in 1..Len(q) : arr.vals[k] = FieldStored(b, v, q[k], ev.names[j])]
       [] ev.what = "headers" ->
            LET es == TLCEval(Candidates(sv, ev))
            IN IF \A e \in es : e.k # "ok" THEN [extraction_refused |-> Raised(ev.res, "ValueError")]
               ELSE IF ~IsOk(ev.res) THEN [extracts |-> FALSE]
               ELSE IF Len(ev.res.v.arrays) # Len(ev.names) THEN [array_names |-> FALSE]
               ELSE LET Of(j, e) == PlaneHolds(ev, ev.res.v.arrays[j], e.v, LAMBDA place, cell : cell = FieldStored(b, v, place[1], ev.names[j]))
                        fits == {e \in es : \A j \in 1..Len(ev.names) : AllTrue(Of(j, e))}
                        e == IF fits # {} THEN CHOOSE x \in fits : TRUE ELSE X!Extracted(sv, ev.what, ev.number, ev.a, ev.b)
                        all == [j \in 1..Len(ev.names) |-> Of(j, e)]
                    IN [array_names |-> ev.res.v.names = ev.names] @@ [c \in UNION {DOMAIN all[j] : j \in 1..Len(ev.names)} |-> \A j \in 1..Len(ev.names) : all[j][c]]
       [] OTHER ->
            LET es == TLCEval(Candidates(sv, ev))
            IN IF \A e \in es : e.k # "ok" THEN [extraction_refused |-> Raised(ev.res, "ValueError")]
               ELSE IF ~IsOk(ev.res) THEN [extracts |-> FALSE]
               ELSE LET fits == {e \in es : AllTrue(PlaneHolds(ev, ev.res.v, e.v, Stored))}
                        e == IF fits # {} THEN CHOOSE x \in fits : TRUE ELSE X!Extracted(sv, ev.what, ev.number, ev.a, ev.b)
                    IN PlaneHolds(ev, ev.res.v, e.v, Stored) @@ [array_type |-> ev.res.v.dtype = DTypeOf(v.code)]

(* A reader on a large file, described by how it is composed: for every trace the number n of samples,
   all of them v, the line numbers a and b and the CDP number c.  (Every pair of line numbers is unique.) *)
ComposedClauses(ev) ==
  LET ts == ev.traces
      n == Len(ts)
      At2(key) == {k \in 1..n : <<ts[k].a, ts[k].b>> = key}
  IN IF ~IsOk(ev.res) THEN [opens |-> FALSE]
     ELSE [opens |-> TRUE, trace_count |-> ev.res.v.num = n, trace_lengths |-> ev.res.v.lens = [k \in 1..n |-> ts[k].n], kind |-> ev.res.v.kind = 3,
           index_lookup |-> \A k \in 1..Len(ev.probes) : LET p == ev.probes[k] ks == At2(p.key)
                               IN IF ks = {} THEN Returned(p.has, FALSE) /\ RaisedAny(p.t, {"KeyError", "ValueError"})
                                  ELSE Returned(p.has, TRUE) /\ Returned(p.t, (CHOOSE j \in ks : TRUE) - 1),
           samples |-> \A k \in 1..Len(ev.tails) : LET x == ev.tails[k] IN Returned(x.res, [j \in 1..3 |-> ts[x.t + 1].v]),
           header |-> \A k \in 1..Len(ev.tails) : LET x == ev.tails[k] t == ts[x.t + 1] IN Returned(x.h, <<t.n, t.a, t.b, t.c>>)]

(* The command line. *)
Cl == INSTANCE Cli WITH TypeNames <- [c \in DOMAIN SampleWidths |-> SampleTypeName(c)],
  Descriptions <- [c \in DOMAIN SampleWidths |-> SampleDescription(c)]
CliClauses(s, ev) ==
  LET v == TLCEval(IF ev.file = "missing" THEN Refused("missing") ELSE ViewFor(s, CliEvent(ev)))
  IN [data_file_unchanged |-> ev.intact]
     @@ (IF ~v.ok THEN [unreadable_reported |-> ev.status # 0 /\ ev.objects = 0]
         ELSE IF ev.cmd = "metadata" THEN
              LET m == Cl!Metadata(v)
              IN [exit_status |-> ev.status = 0, one_object |-> ev.objects = 1,
                  metadata |-> ev.objects = 1 => \A f \in DOMAIN m : f \in DOMAIN ev.obj /\ ev.obj[f] = m[f]]
         ELSE [exit_status |-> ev.status = 0,
               report_facts |-> LET said == {<<ev.pairs[k][1], ev.pairs[k][2]>> : k \in 1..Len(ev.pairs)}
                                    want == Cl!Facts(v, BinValue(v.bin, "format_revision_num"))
                                IN want \subseteq said /\ \A x \in said : (\E y \in {"Number of CDPs", "Number of inlines", "Number of crosslines"} \cup {w[1] : w \in want} : x[1] = y) => x \in want,
               report_filename |-> ev.named,
               report_text |-> ev.text = Cl!PrintedText(v.text),
               report_extended |-> ev.ext.k = "ok" /\ ev.ext.v = v.ext])

(* Files of gigabytes, described and not given: trace t has t in its first field and t + 7 as its ensemble number. *)
Bf == INSTANCE BigFile WITH Base <- 1024, HeadLen <- 240
BigClauses(ev) ==
  LET n == Bf!NumTraces(ev.runs)
      start == Bf!Big(3600)
      BigSampleAt(t, j) == LET b == Bf!SampleBytes(ev.runs, ev.w, start, t, j)
                            be == IF ev.endian = Big THEN b ELSE [k \in 1..Len(b) |-> b[Len(b) + 1 - k]]
                        IN IF ev.code = 1 THEN b ELSE IntOfBE(be)
      Inside(p) == p.t >= 0 /\ p.t < n
      SamplesOk(p) == IF Inside(p) /\ p.stop <= Bf!LenOf(ev.runs, p.t)
                      THEN Returned(p.samples, [j \in 1..(p.stop - p.start) |-> BigSampleAt(p.t, p.start + j - 1)]) ELSE Raised(p.samples, "ValueError")
  IN [opens |-> IsOk(ev.res)] @@
     (IF ~IsOk(ev.res) THEN NoClauses
      ELSE [trace_count |-> ev.res.v[1] = n,
            max_samples |-> ev.res.v[2] = Bf!Longest(ev.runs),
            kind |-> ev.res.v[3] = 2,
            count |-> \A k \in 1..Len(ev.probes) : LET p == ev.probes[k] IN IF Inside(p) THEN Returned(p.count, Bf!LenOf(ev.runs, p.t)) ELSE IsExc(p.count),
            header |-> \A k \in 1..Len(ev.probes) : LET p == ev.probes[k] IN IF Inside(p) THEN Returned(p.header, <<p.t, p.t + 7, Bf!LenOf(ev.runs, p.t)>>) ELSE Raised(p.header, "ValueError"),
            samples |-> \A k \in 1..Len(ev.probes) : SamplesOk(ev.probes[k]),
            index_lookup |-> \A k \in 1..Len(ev.probes) : LET p == ev.probes[k] IN Returned(p.has, Inside(p)) /\ (IF Inside(p) THEN Returned(p.index, p.t) ELSE Raised(p.index, "KeyError"))])

(* Surveys of thousands of traces, given by rules: the value of a key is the place of its trace in the file. *)
Sv == INSTANCE Survey
SurveyClauses(ev) ==
  LET p == ev.survey
      grid == p.shape # "line"
      n == Sv!Len0(p)
      kind == IF ev.repeated THEN 1 ELSE IF grid THEN 3 ELSE 2
      NumOf(key) == IF grid THEN <<0, key[1], key[2]>> ELSE <<key[1], 0, 0>>
      Keys(seq) == IF grid THEN seq ELSE [k \in 1..Len(seq) |-> <<seq[k]>>]
      Sorted(seq) == \A k \in 1..(Len(seq) - 1) : seq[k] < seq[k + 1]
  IN [opens |-> Sv!Sound(p) /\ IsOk(ev.res)] @@
     (IF ~IsOk(ev.res) THEN NoClauses
      ELSE [trace_count |-> ev.res.v.n = n + (IF ev.repeated THEN 1 ELSE 0),
            index_kind |-> ev.res.v.kind = kind,
            line_numbers |-> ev.res.v.kind = 3 /\ kind = 3 => /\ Returned(ev.a, Sv!AxisI(p)) /\ Returned(ev.b, Sv!AxisJ(p))
                                                           /\ Returned(ev.na, p.ni) /\ Returned(ev.nb, p.nj),
            line_keys |-> ev.res.v.kind = 3 /\ kind = 3 => IsOk(ev.order) /\ Len(ev.order.v) = n /\ \A k \in 1..n : Sv!ItemOf(p, ev.order.v[k]) >= 0,
            cdp_numbers |-> ev.res.v.kind = 2 /\ kind = 2 => /\ Returned(ev.na, n) /\ IsOk(ev.a) /\ Len(ev.a.v) = n /\ Sorted(ev.a.v)
                                                          /\ \A k \in 1..Len(ev.a.v) : Sv!ItemOf(p, <<ev.a.v[k]>>) >= 0,
            index_lookup |-> ev.res.v.kind = kind => \A k \in 1..Len(ev.probes) :
                 LET q == ev.probes[k]
                     m == Sv!ItemOf(p, q.key)
                 IN IF m >= 0 THEN Returned(q.has, TRUE) /\ Returned(q.t, Sv!ValueOf(p, m))
                    ELSE Returned(q.has, FALSE) /\ RaisedAny(q.t, {"KeyError", "ValueError"}),
            header |-> \A k \in 1..Len(ev.headers) :
                 LET q == ev.headers[k]
                 IN q.t < n => Returned(q.res, NumOf(Sv!KeyOf(p, Sv!ItemWith(p, q.t))))])

Clauses(s, ev) ==
  CASE ev.op \in {"t_write", "t_read", "t_guess", "t_format", "t_extwrite", "t_extread", "t_std", "t_parse"} -> TLCEval(TextClauses(ev))
    [] ev.op \in {"begin", "format", "dataset", "file", "cut", "move", "derive", "relocate"} -> NoClauses
    [] ev.op = "write" -> WriteClauses(s, ev)
    [] ev.op = "open" -> IF Has(ev, "loc") THEN CachedOpenClauses(s, ev) ELSE OpenClauses(s, ev, BaseView(s, ev))
    [] ev.op = "header" -> [header |-> Matches(HeaderFor(s, ev, ev.t, ev.names), ev.res)]
    [] ev.op = "samples" -> [samples |-> Matches(SamplesFor(s, ev, ev.t, ev.start, ev.stop), ev.res)]
    [] ev.op = "survey" -> TLCEval(SurveyClauses(ev))
    [] ev.op = "big" -> TLCEval(BigClauses(ev))
    [] ev.op = "count" -> [count |-> LET v == s.readers[ev.reader].view
                                     IN IF ev.t >= 0 /\ ev.t < NumTraces(v) THEN Returned(ev.res, v.lens[ev.t + 1]) ELSE IsExc(ev.res)]
    [] ev.op = "readall" ->
         LET n == NumTraces(s.readers[ev.reader].view)
         IN [all_traces |-> Len(ev.headers) = n /\ Len(ev.samples) = n,
             all_headers |-> \A t \in 1..Len(ev.headers) : t <= n => Matches(HeaderFor(s, ev, t - 1, ev.names), ev.headers[t]),
             all_samples |-> \A t \in 1..Len(ev.samples) : t <= n => Matches(SamplesFor(s, ev, t - 1, <<>>, <<>>), ev.samples[t])]
    [] ev.op = "index" -> IndexClauses(s, ev)
    [] ev.op = "extract" -> TLCEval(ExtractClauses(s, ev))
    [] ev.op = "cli" -> TLCEval(CliClauses(s, ev))
    [] ev.op = "composed" -> TLCEval(ComposedClauses(ev))
    [] ev.op = "reports" -> [done |-> IsOk(ev.res) /\ ev.res.v] @@ ProgressClauses(ev, TRUE)
    [] ev.op = "badopen" -> BadOpenClauses(s, ev)
    [] ev.op = "expose" -> ExposeClauses(s, ev)
    [] ev.op = "repickle" -> [reader_unpickles |-> IsOk(ev.res),
                              reader_equivalent |-> IsOk(ev.res) => ev.res.v = ev.old,
                              reads_agree |-> \A k \in 1..Len(ev.reads) : LET x == ev.reads[k] IN x.a.k = x.b.k /\ (IF IsOk(x.a) THEN x.a.v = x.b.v ELSE x.a.t = x.b.t),
                              original_undisturbed |-> ev.after = ev.old]
    [] ev.op \in {"p_close", "p_move", "p_go"} -> NoClauses
    [] ev.op = "p_dump" -> LET errors == Pk!DumpErrors(s.world, ev.reader)
                           IN [pickled_or_refused |-> IF errors = {} THEN IsOk(ev.res) ELSE \E e \in errors : Raised(ev.res, e)]
    [] ev.op = "p_load" -> [restored_or_refused |-> \/ IsOk(ev.res) /\ Pk!LoadMaySucceed(s.world, ev.blob)
                                                    \/ ~Pk!Reachable(s.world, ev.blob) /\ \E e \in Pk!LoadErrors(s.world, ev.blob) : Raised(ev.res, e),
                            nothing_created |-> ~ev.created,
                            restored_shows_the_same |-> IsOk(ev.res) => ev.res.v = s.shown[ev.blob].view]
    [] ev.op = "p_unreadable" -> [closed_refused |-> IsExc(ev.res) /\ ~Pk!ReadSucceeds(s.world, ev.reader)]
    [] ev.op = "unpicklable" -> [not_restorable_refused |-> Raised(ev.res, "TypeError") /\ ~ev.created]
    [] ev.op = "same" -> [file_unchanged |-> ev.bytes = s.files[ev.file]]

VARIABLES i, st, bad
TM == INSTANCE TraceMain
TInit == TM!Init
TNext == TM!Next
TAlias == [i |-> i]
=============================================================================

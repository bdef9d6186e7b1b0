----------------------------- MODULE TraceHeader -----------------------------
(* Judges header formats, packers and header objects of the real code (C08, C09,
   and the header and packer part of C11).
   state: fmts  format name -> [f |-> format, ok |-> accepted]
          heap  header identity -> [fmt |-> format name, vals]                  *)
EXTENDS TraceBase, HeaderValue
Init0 == [fmts |-> <<>>, heap |-> <<>>]

FieldOf(x) == [name |-> x.name, off |-> x.off, tid |-> x.tid, w |-> x.w, lo |-> x.lo, hi |-> x.hi, def |-> x.def, vals |-> {x.vals[k] : k \in DOMAIN x.vals}]
FormatOf(ev) == [start |-> ev.start, len |-> ev.len, fields |-> Effective([k \in 1..Len(ev.fields) |-> FieldOf(ev.fields[k])])]
Fm(s, name) == s.fmts[name].f
(* values are recorded by field name *)
Vec(fmt, rec) == TLCEval([k \in 1..Len(fmt.fields) |-> rec[fmt.fields[k].name]])
HasAll(fmt, rec) == DOMAIN rec = {fmt.fields[k].name : k \in 1..Len(fmt.fields)}
SameValues(fmt, rec, vals) == HasAll(fmt, rec) /\ \A k \in 1..Len(fmt.fields) : rec[fmt.fields[k].name] = vals[k]
PartOf(fmt, whole, vals) == TLCEval([k \in 1..Len(fmt.fields) |-> vals[FieldIx(whole, fmt.fields[k].name)]])

(* positional arguments go to the fields in order, keywords win *)
Kept(pos, kw) == SelectSeq(pos, LAMBDA p : \A j \in 1..Len(kw) : kw[j].n # p.n)
NewErrors(fmt, ev) == UpdateErrors(fmt, ev.pos) \cup UpdateErrors(fmt, ev.ups)
NewValues(fmt, ev) == Updated(fmt, Defaults(fmt), Kept(ev.pos, ev.ups) \o ev.ups)

Add(s, name, f) == [s EXCEPT !.fmts = (name :> [f |-> f, ok |-> Faults(f) = {}]) @@ @]
Put_(s, id, fmt, vals) == [s EXCEPT !.heap = (id :> [fmt |-> fmt, vals |-> vals]) @@ @]
Without(s, id) == [s EXCEPT !.heap = [j \in DOMAIN @ \ {id} |-> @[j]]]
(* A history which has left the model (something was accepted which had to be refused, and
   that was reported) is not followed any further. *)
Followed(s, ev) == /\ \A n \in {"fmt", "parent"} : (Has(ev, n) /\ ev.op # "fmt") => (ev[n] \in DOMAIN s.fmts /\ s.fmts[ev[n]].ok)
                   /\ ev.op \in {"set", "drop", "delete"} => ev.id \in DOMAIN s.heap
                   /\ ev.op \in {"copy", "pickle"} => ev.of \in DOMAIN s.heap
                   /\ ev.op = "equal" => {ev.a, ev.b} \subseteq DOMAIN s.heap
Apply(s, ev) ==
  CASE ev.op = "begin" -> Init0
    [] ~Followed(s, ev) -> s
    [] ev.op = "fmt" -> Add(s, ev.name, FormatOf(ev))
    [] ev.op = "sub" -> Add(s, ev.name, SubFormat(Fm(s, ev.parent), ev.names))
    [] ev.op = "new" -> LET fmt == Fm(s, ev.fmt) IN IF NewErrors(fmt, ev) = {} THEN Put_(s, ev.id, ev.fmt, NewValues(fmt, ev)) ELSE s
    [] ev.op = "set" -> LET h == s.heap[ev.id] fmt == Fm(s, h.fmt) IN
                        IF UpdateErrors(fmt, ev.ups) = {} THEN Put_(s, ev.id, h.fmt, Updated(fmt, h.vals, ev.ups)) ELSE s
    [] ev.op = "copy" -> LET h == s.heap[ev.of] fmt == Fm(s, h.fmt) IN
                         IF UpdateErrors(fmt, ev.ups) = {} THEN Put_(s, ev.id, h.fmt, Updated(fmt, h.vals, ev.ups)) ELSE s
    [] ev.op = "drop" -> Without(s, ev.id)
    [] ev.op = "pickle" -> [s EXCEPT !.heap = (ev.id :> s.heap[ev.of]) @@ @]
    [] OTHER -> s

(* what the live headers are observed to hold is what the model says *)
SnapshotOk(s, all) == /\ {all[k].id : k \in 1..Len(all)} = DOMAIN s.heap
                      /\ \A k \in 1..Len(all) : LET h == s.heap[all[k].id] IN SameValues(Fm(s, h.fmt), all[k].v, h.vals)
OthersOk(s, all, id) == \A k \in 1..Len(all) : all[k].id \in DOMAIN s.heap \ {id} => LET h == s.heap[all[k].id] IN SameValues(Fm(s, h.fmt), all[k].v, h.vals)
OneOk(s, all, id) == id \in DOMAIN s.heap => /\ \E k \in 1..Len(all) : all[k].id = id
                                             /\ \A k \in 1..Len(all) : all[k].id = id => LET h == s.heap[id] IN SameValues(Fm(s, h.fmt), all[k].v, h.vals)
Errors_(errs) == IF errs \cap {"ValueError", "TypeError"} = {} THEN {} ELSE errs
Outcome_(r, errs) == IF errs = {} THEN IsOk(r) ELSE RaisedAny(r, errs \cup IF {"ValueError", "TypeError"} \subseteq errs THEN {"OverflowError"} ELSE {})
FieldNames(fmt) == {fmt.fields[k].name : k \in 1..Len(fmt.fields)}
DescriptionOk(fmt, d) == /\ Len(d) = Len(fmt.fields)
                         /\ \A k \in 1..Len(d) : \E j \in 1..Len(fmt.fields) :
                              LET f == fmt.fields[j] IN d[k].name = f.name /\ d[k].off = f.off /\ d[k].def = f.def /\ d[k].tid = f.tid
CompileClauses(fmt, ev) ==
  LET faults == Faults(fmt)
  IN [format_accepted_or_refused |-> IF faults = {} THEN IsOk(ev.res) ELSE RaisedAny(ev.res, {"ValueError", "TypeError"}),
      field_names |-> {ev.names[k] : k \in 1..Len(ev.names)} = FieldNames(fmt),
      field_descriptions |-> DescriptionOk(fmt, ev.desc),
      record_length |-> faults = {} /\ IsOk(ev.res) => ev.res.v = LengthOf(fmt)]
ChangeClauses(s, ev, errs, id) ==
  LET s2 == Apply(s, ev)
  IN [outcome |-> Outcome_(ev.res, errs),
      value_held |-> IsOk(ev.res) => OneOk(s2, ev.all, id),
      value_kept |-> IsExc(ev.res) => OneOk(s2, ev.all, id),
      others_untouched |-> OthersOk(s2, ev.all, id)]
Clauses(s, ev) ==
  CASE ev.op = "begin" -> NoClauses
    [] ~Followed(s, ev) -> NoClauses
    [] ev.op = "fmt" -> CompileClauses(FormatOf(ev), ev)
    [] ev.op = "sub" -> CompileClauses(SubFormat(Fm(s, ev.parent), ev.names), ev)
    [] ev.op = "sub_unknown" -> [unknown_part_refused |-> IsExc(ev.res)]
    [] ev.op = "compile" -> LET fmt == [Fm(s, ev.fmt) EXCEPT !.start = ev.start, !.len = ev.len]
                                faults == Faults(fmt)
                            IN [format_accepted_or_refused |-> IF faults = {} THEN IsOk(ev.res) ELSE RaisedAny(ev.res, {"ValueError", "TypeError"}),
                                record_length |-> faults = {} /\ IsOk(ev.res) => ev.res.v = LengthOf(fmt)]
    [] ev.op = "bad_default" -> [bad_default_refused |-> Outcome_(ev.res, IF Acceptable(FieldOf(ev.field), ev.x) THEN {} ELSE ValueErrors([start |-> 0, len |-> 0, fields |-> <<FieldOf(ev.field)>>], <<[n |-> ev.field.name, x |-> ev.x]>>))]
    [] ev.op = "pack" -> LET whole == Fm(s, ev.of) fmt == Fm(s, ev.fmt) vals == PartOf(fmt, whole, Vec(whole, ev.vals))
                         IN IF Agree(fmt, vals) THEN [packed |-> Returned(ev.res, PackBytes(fmt, vals, ev.endian))]
                            ELSE [unequal_refused |-> Raised(ev.res, "ValueError")]
    [] ev.op = "pack_other" -> [other_format_refused |-> Raised(ev.res, "TypeError")]
    [] ev.op = "unpack" -> LET fmt == Fm(s, ev.fmt)
                           IN IF Len(ev.bytes) # LengthOf(fmt) THEN [wrong_length_refused |-> Raised(ev.res, "ValueError")]
                              ELSE LET vals == UnpackValues(fmt, ev.bytes, ev.endian)
                                   IN IF AllLegal(fmt, vals) THEN [unpacked |-> IsOk(ev.res) /\ SameValues(fmt, ev.res.v, vals)]
                                      ELSE [illegal_value_refused |-> Raised(ev.res, "ValueError")]
    [] ev.op = "new" -> ChangeClauses(s, ev, NewErrors(Fm(s, ev.fmt), ev), ev.id)
    [] ev.op = "set" -> ChangeClauses(s, ev, UpdateErrors(Fm(s, s.heap[ev.id].fmt), ev.ups), ev.id)
    [] ev.op = "copy" -> ChangeClauses(s, ev, UpdateErrors(Fm(s, s.heap[ev.of].fmt), ev.ups), ev.id)
    [] ev.op = "drop" -> [others_untouched |-> SnapshotOk(Apply(s, ev), ev.all)]
    [] ev.op = "delete" -> [deletion_refused |-> Raised(ev.res, "AttributeError"), value_kept |-> SnapshotOk(s, ev.all)]
    [] ev.op = "equal" -> [equality |-> Returned(ev.res, s.heap[ev.a] = s.heap[ev.b])]
    (* pickling: what comes back shows what the original showed *)
    [] ev.op = "pickle" -> [unpickles |-> Returned(ev.res, ev.before),
                            original_untouched |-> ev.after = ev.before,
                            unpickled_is_separate |-> Returned(ev.separate, TRUE)]
    [] ev.op = "repack" -> [packer_unpickles |-> IsOk(ev.made),
                            unpickled_packs |-> IsOk(ev.made) => ev.new.k = ev.old.k /\ (IsOk(ev.old) => ev.new.v = ev.old.v),
                            unpickled_unpacks |-> IsOk(ev.made) => ev.read_new.k = ev.read_old.k /\ (IsOk(ev.read_old) => ev.read_new.v = ev.read_old.v)]
    [] ev.op = "stale" -> [other_version_refused |-> Raised(ev.res, "TypeError")]
VARIABLES i, st, bad
TM == INSTANCE TraceMain
TInit == TM!Init
TNext == TM!Next
TAlias == [i |-> i]
=============================================================================

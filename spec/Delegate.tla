------------------------------ MODULE Delegate -------------------------------
(* Datasets seen through others (C21).

   What can be observed of a dataset is an exposure: its headers and traces, how
   many traces it claims to have, which of them there are and in which order, and
   what it says about encoding, byte order and dimensionality.  A dataset which
   delegates exposes what its source exposes, except for what it overrides. *)
EXTENDS Integers, Sequences
Exposure(ds, enc, endian, dim, strict) ==
  [text |-> ds.text, bin |-> ds.bin, ext |-> ds.ext,
   \* strict traces are refused outside of their range; others are cut as sequences are
   traces |-> [k \in 1..Len(ds.traces) |-> [h |-> ds.traces[k].h, s |-> ds.traces[k].s, strict |-> strict]],
   num |-> Len(ds.traces), indexes |-> [k \in 1..Len(ds.traces) |-> k - 1],
   enc |-> enc, endian |-> endian, dim |-> dim]

(* An override has a sequence for every aspect, empty when the aspect is that of the source. *)
Aspects == {"text", "bin", "ext", "enc", "endian", "dim", "num", "indexes", "headers", "samples"}
None == [a \in Aspects |-> <<>>]
Replaced(list, t) == \E k \in 1..Len(list) : list[k].t = t
Replacement(list, t) == list[CHOOSE k \in 1..Len(list) : list[k].t = t].v
OrSource(own, value) == IF own = <<>> THEN value ELSE own[1]
OverrideTrace(t, tr, ov) ==
  [h |-> IF Replaced(ov.headers, t) THEN Replacement(ov.headers, t) ELSE tr.h,
   s |-> IF Replaced(ov.samples, t) THEN Replacement(ov.samples, t) ELSE tr.s,
   strict |-> tr.strict /\ ~Replaced(ov.samples, t)]
Derive(x, ov) ==
  [text |-> OrSource(ov.text, x.text), bin |-> OrSource(ov.bin, x.bin), ext |-> OrSource(ov.ext, x.ext),
   traces |-> [k \in 1..Len(x.traces) |-> OverrideTrace(k - 1, x.traces[k], ov)],
   num |-> OrSource(ov.num, x.num), indexes |-> OrSource(ov.indexes, x.indexes),
   enc |-> OrSource(ov.enc, x.enc), endian |-> OrSource(ov.endian, x.endian), dim |-> OrSource(ov.dim, x.dim)]

(* What is written of an exposure: the traces there are, in their order, and nothing of those left out. *)
Written(x) == [text |-> x.text, bin |-> x.bin, ext |-> x.ext,
               traces |-> [k \in 1..Len(x.indexes) |-> [h |-> x.traces[x.indexes[k] + 1].h, s |-> x.traces[x.indexes[k] + 1].s]]]

(* Part of a trace: start and stop are <<>> or <<number>>. *)
Clamp(x, n) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE IF x > n THEN n ELSE x
PartOutcome(tr, start, stop) ==
  LET n == Len(tr.s)
      a == IF start = <<>> THEN 0 ELSE start[1]
      b == IF stop = <<>> THEN n ELSE stop[1]
      c == Clamp(a, n)
      e == Clamp(b, n)
  IN IF tr.strict THEN (IF 0 <= a /\ a <= b /\ b <= n THEN [k |-> "ok", v |-> SubSeq(tr.s, a + 1, b), name |-> ""]
                        ELSE [k |-> "error", v |-> <<>>, name |-> "ValueError"])
     ELSE [k |-> "ok", v |-> IF e <= c THEN <<>> ELSE SubSeq(tr.s, c + 1, e), name |-> ""]

(* Overrides of overrides: the outer one wins, aspect by aspect and trace by trace. *)
Over(inner, outer) == [a \in Aspects |-> IF a \in {"headers", "samples"} THEN outer[a] \o inner[a] ELSE IF outer[a] # <<>> THEN outer[a] ELSE inner[a]]
=============================================================================

------------------------------ MODULE SegySmall ------------------------------
(* A miniature SEG-Y: 2 cards of 2 characters, a 5 byte binary header, 5 byte
   trace headers.  Used to instantiate SegyFormat for exhaustive checking. *)
EXTENDS Integers, Sequences, TLC
FS(n, off, w, lo, hi, vals) == [name |-> n, off |-> off, w |-> w, lo |-> lo, hi |-> hi, vals |-> vals]
SmallBinFields == <<
  FS("data_sample_format", 5, 1, 1, 8, {2, 3, 8}),
  FS("format_revision_num", 7, 2, 0, 256, {0, 256}),
  FS("num_extended_textual_headers", 9, 1, -1, 127, {}) >>   \* byte 6 is a gap
SmallTraceFields == <<
  FS("num_samples", 3, 1, 0, 127, {}),                          \* declared out of order
  FS("ensemble_num", 1, 1, -128, 127, {}),
  FS("inline_number", 4, 1, -128, 127, {}),
  FS("crossline_number", 5, 1, -128, 127, {}) >>                \* byte 2 is a gap
SmallStop == <<33>>
SmallWidths == (1 :> 4) @@ (2 :> 4) @@ (3 :> 2) @@ (5 :> 4) @@ (8 :> 1)
=============================================================================

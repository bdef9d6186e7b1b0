------------------------------- MODULE Extract -------------------------------
(* Array extraction (segpy_numpy/extract.py): which cells an extracted array has
   and what each of them holds.

   A survey is [ix |-> function from <<inline, crossline>> to trace index,
   lens |-> samples of each trace]; a selector says which of the numbers along
   an axis are wanted:
     [k |-> "all" | "seq" | "slice", items, start, stop, step]
   (bounds of slices as sequences of at most one number, a sequence of items may
   be in any order and repeat itself).                                        *)
EXTENDS SortedSeq

All == [k |-> "all", items |-> <<>>, start |-> <<>>, stop |-> <<>>, step |-> 1]
Items(q) == [All EXCEPT !.k = "seq", !.items = q]
SliceOf(a, b, c) == [All EXCEPT !.k = "slice", !.start = a, !.stop = b, !.step = c]

(* the selected numbers of an axis whose numbers are the ascending sequence nums *)
Resolve(sel, nums) ==
  CASE sel.k = "all" -> OkV(nums)
    [] sel.k = "seq" -> IF Elements(sel.items) \subseteq Elements(nums) THEN OkV(SortedDistinct(sel.items, "asc")) ELSE Err("ValueError")
    [] sel.k = "slice" -> OkV(SliceSeq(nums, sel.start, sel.stop, sel.step))

Inlines(sv) == Ascend({key[1] : key \in DOMAIN sv.ix})
Crosslines(sv) == Ascend({key[2] : key \in DOMAIN sv.ix})
MaxLen(sv) == IF sv.lens = <<>> THEN 0 ELSE CHOOSE m \in Elements(sv.lens) : \A x \in Elements(sv.lens) : x <= m
UpTo(n) == [k \in 1..n |-> k - 1]

(* what is in the cell for a trace and sample number, as places in the file: <<>> or <<trace, sample>> *)
Place(sv, key, k) == IF key \in DOMAIN sv.ix /\ k < sv.lens[sv.ix[key] + 1] THEN <<sv.ix[key], k>> ELSE <<>>
HeaderPlace(sv, key) == IF key \in DOMAIN sv.ix THEN <<sv.ix[key]>> ELSE <<>>
Grid(rows, cols, F(_, _)) == TLCEval([r \in 1..Len(rows) |-> [c \in 1..Len(cols) |-> F(rows[r], cols[c])]])

(* the places of the cells of an array, or the error *)
Axes(sv, what) == CASE what = "inline" -> <<Crosslines(sv), UpTo(MaxLen(sv))>>
                    [] what = "xline" -> <<Inlines(sv), UpTo(MaxLen(sv))>>
                    [] what \in {"timeslice", "headers"} -> <<Inlines(sv), Crosslines(sv)>>
NumberOk(sv, what, n) == CASE what = "inline" -> n \in Elements(Inlines(sv))
                           [] what = "xline" -> n \in Elements(Crosslines(sv))
                           [] what = "timeslice" -> 0 <= n /\ n < MaxLen(sv)
                           [] what = "headers" -> TRUE
CellOf(sv, what, n, a, b) == CASE what = "inline" -> Place(sv, <<n, a>>, b)
                               [] what = "xline" -> Place(sv, <<a, n>>, b)
                               [] what = "timeslice" -> Place(sv, <<a, b>>, n)
                               [] what = "headers" -> HeaderPlace(sv, <<a, b>>)
Plane(sv, what, n, rows, cols) == Grid(rows, cols, LAMBDA a, b : CellOf(sv, what, n, a, b))
Extracted(sv, what, n, selA, selB) ==
  LET axes == Axes(sv, what)
      rows == Resolve(selA, axes[1])
      cols == Resolve(selB, axes[2])
  IN IF ~NumberOk(sv, what, n) \/ rows.k # "ok" \/ cols.k # "ok" THEN Err("ValueError")
     ELSE OkV([rows |-> rows.v, cols |-> cols.v, cells |-> Plane(sv, what, n, rows.v, cols.v)])

--------------------------------------------------------------------------
(* A single precision number for four bytes of an IBM number, rounded to the nearest. *)
F32Bytes(s, bits) == <<s * 128 + bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
RECURSIVE Lead(_, _)
Lead(m, n) == IF m >= 8388608 THEN n ELSE Lead(m * 2, n + 1)
F32OfIbm(b) ==
  LET s == b[1] \div 128
      m == b[2] * 65536 + b[3] * 256 + b[4]
      k == Lead(m, 0)
      full == m * 2^k
      biased == 4 * ((b[1] % 128) - 64) - k + 126
      shift == 1 - biased
      q == full \div 2^shift
      r == full % 2^shift
      up == IF 2 * r = 2^shift THEN q % 2 ELSE IF r > 2^(shift - 1) THEN 1 ELSE 0
  IN IF m = 0 THEN F32Bytes(s, 0)
     ELSE IF biased >= 255 THEN F32Bytes(s, 2139095040)
     ELSE IF biased >= 1 THEN F32Bytes(s, biased * 8388608 + (full - 8388608))
     ELSE IF shift > 25 THEN F32Bytes(s, 0)
     ELSE F32Bytes(s, q + up)
IsZeroF32(b) == b \in {<<0, 0, 0, 0>>, <<128, 0, 0, 0>>}
SameF32(a, b) == a = b \/ (IsZeroF32(a) /\ IsZeroF32(b))
=============================================================================

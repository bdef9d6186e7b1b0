------------------------------ MODULE ExtractMC ------------------------------
(* C20: surveys of a few traces and the arrays extracted from them.  The fill of
   an array is modelled as the code does it: an array of nothing, then trace after
   trace, by slicing the trace's samples where the sample numbers are a rising
   range and number by number otherwise.  Whatever the survey and the selectors,
   the filled array is the one of module Extract.  Completed requests are handed
   to the driver as scenarios. *)
EXTENDS Extract, Scenario
CONSTANTS Keys,          \* places in the survey, a sequence of <<inline, crossline>>
          Lengths,       \* of traces; -1 stands for no trace
          SeqNumbers,    \* numbers in selecting sequences
          MaxSeq, Bounds, Steps, Numbers, Whats
VARIABLES pc, sv, next, req, rows, cols, arr, row
vars == <<pc, sv, next, req, rows, cols, arr, row>>
Opt == {<<>>} \cup {<<b>> : b \in Bounds}
Sels == {All} \cup {Items(q) : q \in UNION {[1..n -> SeqNumbers] : n \in 0..MaxSeq}} \cup {SliceOf(a, b, c) : a \in Opt, b \in Opt, c \in Steps}
KeysDefault == <<<<0, 0>>, <<0, 1>>, <<1, 0>>>>
KeysMany == <<<<0, 0>>, <<0, 2>>, <<1, 0>>, <<1, 1>>, <<2, 2>>, <<2, 1>>, <<0, 1>>>>
LengthsDefault == {-1, 0, 2}
LengthsMany == {-1, 0, 1, 2, 3}
BoundsDefault == {-1, 1}
BoundsMany == {-2, -1, 0, 1, 2, 4}
StepsDefault == {1, -1}
StepsMany == {1, 2, -1, -2}
NumbersDefault == {-1, 0, 1}
NumbersMany == {-1, 0, 1, 2, 3}
SeqDefault == {0, 1}
Nothing == [what |-> "none", number |-> 0, a |-> All, b |-> All]
Init == pc = "survey" /\ sv = [ix |-> <<>>, lens |-> <<>>] /\ next = 1 /\ req = Nothing /\ rows = <<>> /\ cols = <<>> /\ arr = <<>> /\ row = 1
Place1 == /\ pc = "survey" /\ next <= Len(Keys)
          /\ \E n \in Lengths : sv' = IF n < 0 THEN sv ELSE [ix |-> (Keys[next] :> Len(sv.lens)) @@ sv.ix, lens |-> Append(sv.lens, n)]
          /\ next' = next + 1 /\ UNCHANGED <<pc, req, rows, cols, arr, row>>
Surveyed == /\ pc = "survey" /\ next > Len(Keys) /\ pc' = "what" /\ UNCHANGED <<sv, next, req, rows, cols, arr, row>>
What == /\ pc = "what" /\ \E w \in Whats, n \in Numbers : req' = [req EXCEPT !.what = w, !.number = n]
        /\ pc' = "a" /\ UNCHANGED <<sv, next, rows, cols, arr, row>>
SelectA == pc = "a" /\ (\E s \in Sels : req' = [req EXCEPT !.a = s]) /\ pc' = "b" /\ UNCHANGED <<sv, next, rows, cols, arr, row>>
SelectB == pc = "b" /\ (\E s \in Sels : req' = [req EXCEPT !.b = s]) /\ pc' = "check" /\ UNCHANGED <<sv, next, rows, cols, arr, row>>
(* refuse, or make the empty array *)
Check == /\ pc = "check"
         /\ LET axes == Axes(sv, req.what)
                r == Resolve(req.a, axes[1])
                c == Resolve(req.b, axes[2])
            IN IF ~NumberOk(sv, req.what, req.number) \/ r.k # "ok" \/ c.k # "ok"
               THEN pc' = "refused" /\ UNCHANGED <<rows, cols, arr>>
               ELSE pc' = "fill" /\ rows' = r.v /\ cols' = c.v /\ arr' = [x \in 1..Len(r.v) |-> [y \in 1..Len(c.v) |-> <<>>]]
         /\ UNCHANGED <<sv, next, req, row>>
(* a rising range or nothing else: what the sliced path needs *)
Rising == Len(cols) <= 1 \/ \E d \in 1..4 : \A y \in 1..(Len(cols) - 1) : cols[y + 1] - cols[y] = d
SlicedRow(t) == LET n == sv.lens[t + 1]
                    stop == IF cols = <<>> THEN 0 ELSE cols[Len(cols)] + 1
                    end == IF stop < n THEN stop ELSE n
                    step == IF Len(cols) > 1 THEN cols[2] - cols[1] ELSE 1
                    got == SliceSeq(UpTo(n), IF cols = <<>> THEN <<0>> ELSE <<cols[1]>>, <<end>>, step)
                IN [y \in 1..Len(cols) |-> IF y <= Len(got) THEN <<t, got[y]>> ELSE <<>>]
NumberedRow(t) == [y \in 1..Len(cols) |-> IF cols[y] < sv.lens[t + 1] THEN <<t, cols[y]>> ELSE <<>>]
FillRow == /\ pc = "fill" /\ row <= Len(rows)
           /\ LET a == rows[row]
                  LineKey == IF req.what = "inline" THEN <<req.number, a>> ELSE <<a, req.number>>
              IN arr' = [arr EXCEPT ![row] =
                   IF req.what \in {"inline", "xline"}
                   THEN IF LineKey \notin DOMAIN sv.ix THEN @ ELSE IF Rising THEN SlicedRow(sv.ix[LineKey]) ELSE NumberedRow(sv.ix[LineKey])
                   ELSE [y \in 1..Len(cols) |-> IF <<a, cols[y]>> \notin DOMAIN sv.ix THEN <<>>
                                                ELSE LET t == sv.ix[<<a, cols[y]>>]
                                                     IN IF req.what = "headers" THEN <<t>> ELSE IF req.number < sv.lens[t + 1] THEN <<t, req.number>> ELSE <<>>]]
           /\ row' = row + 1 /\ UNCHANGED <<pc, sv, next, req, rows, cols>>
Filled == pc = "fill" /\ row > Len(rows) /\ pc' = "done" /\ UNCHANGED <<sv, next, req, rows, cols, arr, row>>
Next == Place1 \/ Surveyed \/ What \/ SelectA \/ SelectB \/ Check \/ FillRow \/ Filled
Spec == Init /\ [][Next]_vars

Expected == Extracted(sv, req.what, req.number, req.a, req.b)
ArrayExact == pc = "done" => Expected.k = "ok" /\ Expected.v.rows = rows /\ Expected.v.cols = cols /\ Expected.v.cells = arr
RefusedExactly == /\ pc = "refused" => Expected.k = "error"
                  /\ pc \in {"fill", "done"} => Expected.k = "ok"
(* stated without Place: a cell is empty just when there is no such sample *)
EmptyExactly == pc = "done" /\ req.what = "inline" =>
  \A x \in 1..Len(rows), y \in 1..Len(cols) :
     (arr[x][y] = <<>>) <=> ~(\E key \in DOMAIN sv.ix : key = <<req.number, rows[x]>> /\ cols[y] < sv.lens[sv.ix[key] + 1])
Increasing == pc = "done" /\ req.a.k # "slice" => StrictlyUp(rows)
RowsOnlyOnce == [][\A x \in 1..Len(arr) : pc = "fill" /\ x # row => arr'[x] = arr[x]]_vars

Requests == pc \in {"done", "refused"} => Emit([keys |-> [t \in 1..Len(sv.lens) |-> CHOOSE key \in DOMAIN sv.ix : sv.ix[key] = t - 1],
                                                 lens |-> sv.lens, what |-> req.what, number |-> req.number, a |-> req.a, b |-> req.b])
(* single precision: exact for 24 bit fractions in range, and at its limits *)
ASSUME F32OfIbm(<<66, 100, 0, 0>>) = <<66, 200, 0, 0>>       \* 100
ASSUME F32OfIbm(<<193, 16, 0, 0>>) = <<191, 128, 0, 0>>      \* -1
ASSUME F32OfIbm(<<65, 0, 0, 1>>) = <<53, 128, 0, 0>>         \* 16^-5, unnormalised
ASSUME F32OfIbm(<<97, 16, 0, 0>>) = <<127, 128, 0, 0>>       \* 2^128 is too large
ASSUME F32OfIbm(<<96, 255, 255, 255>>) = <<127, 127, 255, 255>>
ASSUME F32OfIbm(<<27, 16, 0, 0>>) = <<0, 0, 0, 0>>
=============================================================================

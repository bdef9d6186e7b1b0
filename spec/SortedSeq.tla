------------------------------ MODULE SortedSeq ------------------------------
(* Sorted distinct sequences of integers: what they are made of, and what each
   operation on them gives. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SQ == INSTANCE SequencesExt

Elements(q) == {q[k] : k \in 1..Len(q)}
Ascend(S) == SQ!SetToSortSeq(S, LAMBDA x, y : x < y)
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
StrictlyDown(q) == \A k \in 1..(Len(q) - 1) : q[k] > q[k + 1]
StrictlyUp(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
Max2(a, b) == IF a > b THEN a ELSE b
(* the elements of a range *)
RangeLen(a, b, c) == IF c > 0 THEN (IF a < b THEN (b - a + c - 1) \div c ELSE 0) ELSE (IF a > b THEN (a - b - c - 1) \div (-c) ELSE 0)
RangeSeq(a, b, c) == TLCEval([k \in 1..RangeLen(a, b, c) |-> a + (k - 1) * c])

(* sense: "asc", "desc" or "keep" *)
SenseOf(q, sense) == IF sense # "keep" THEN sense ELSE IF Len(q) > 1 /\ StrictlyDown(q) THEN "desc" ELSE "asc"
SortedDistinct(q, sense) == LET a == TLCEval(Ascend(Elements(q))) IN TLCEval(IF SenseOf(q, sense) = "desc" THEN Rev(a) ELSE a)

(* Python's sequence operations on the 0-based sequence s *)
OkV(x) == [k |-> "ok", v |-> x]
Err(n) == [k |-> "error", name |-> n]
ItemAt(s, i) == LET n == Len(s) IN IF 0 <= i /\ i < n THEN OkV(s[i + 1]) ELSE IF -n <= i /\ i < 0 THEN OkV(s[n + i + 1]) ELSE Err("IndexError")
FirstIndex(s, x) == IF x \in Elements(s) THEN OkV((CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x) - 1) ELSE Err("ValueError")
CountOf(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
(* the slice [a:b:c]; absent bounds as <<>> *)
Clamp(v, n, lo, hi) == LET w == IF v < 0 THEN v + n ELSE v IN IF w < lo THEN lo ELSE IF w > hi THEN hi ELSE w
SliceSeq(s, a, b, c) ==
  LET n == Len(s)
      start == IF a = <<>> THEN (IF c > 0 THEN 0 ELSE n - 1) ELSE Clamp(a[1], n, IF c > 0 THEN 0 ELSE -1, IF c > 0 THEN n ELSE n - 1)
      stop == IF b = <<>> THEN (IF c > 0 THEN n ELSE -1) ELSE Clamp(b[1], n, IF c > 0 THEN 0 ELSE -1, IF c > 0 THEN n ELSE n - 1)
  IN [k \in 1..RangeLen(start, stop, c) |-> s[start + (k - 1) * c + 1]]

SetOp(op, A, B) == CASE op = "and" -> A \cap B [] op = "or" -> A \cup B [] op = "sub" -> A \ B [] op = "xor" -> (A \ B) \cup (B \ A) [] op = "add" -> A \cup B
SetRel(op, A, B) == CASE op = "le" -> A \subseteq B [] op = "lt" -> A \subseteq B /\ A # B [] op = "ge" -> B \subseteq A [] op = "gt" -> B \subseteq A /\ A # B
                      [] op = "eq" -> A = B [] op = "ne" -> A # B [] op = "disjoint" -> A \cap B = {}
=============================================================================

----------------------------- MODULE SortedSeqMC -----------------------------
(* C07 at small scale: items arrive one after another; the representations used by the
   implementation (bisected ascending list, reversed view, arithmetic range) all agree
   with the reference. *)
EXTENDS SortedSeq, Scenario
CONSTANTS Values, MaxLen
Ints == -2..3
VARIABLES items
Init == items = <<>>
Next == Len(items) < MaxLen /\ \E v \in Values : items' = Append(items, v)
Senses == {"asc", "desc", "keep"}
R(sense) == SortedDistinct(items, sense)
Exact == \A s \in Senses : /\ Elements(R(s)) = Elements(items)
                           /\ StrictlyUp(R(s)) \/ StrictlyDown(R(s))
                           /\ s = "asc" => StrictlyUp(R(s))
                           /\ s = "desc" => StrictlyDown(R(s))
                           /\ s = "keep" /\ (StrictlyUp(items) \/ StrictlyDown(items)) => R(s) = items
(* a sequence of constant stride is the range from its first item to one stride past its last *)
Stride(q) == q[2] - q[1]
Regular(q) == Len(q) >= 2 /\ \A k \in 1..(Len(q) - 1) : q[k + 1] - q[k] = Stride(q)
AsRange == \A s \in Senses : Regular(R(s)) => RangeSeq(R(s)[1], R(s)[Len(R(s))] + Stride(R(s)), Stride(R(s))) = R(s)
(* binary search in the ascending list *)
RECURSIVE Bisect(_, _, _, _)
Bisect(q, x, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF q[m + 1] < x THEN Bisect(q, x, m + 1, hi) ELSE Bisect(q, x, lo, m)
Search == \A x \in (Values \cup {-9, 9}) :
            LET q == R("asc") p == Bisect(q, x, 0, Len(q))
            IN FirstIndex(q, x) = (IF p < Len(q) /\ q[p + 1] = x THEN OkV(p) ELSE Err("ValueError"))
(* positions seen from the other end *)
Mirror == \A x \in Values, i \in -7..6 :
            LET q == R("asc") r == R("desc") n == Len(q)
            IN /\ ItemAt(r, i) = ItemAt(q, -1 - i)
               /\ x \in Elements(q) => FirstIndex(r, x).v = n - 1 - FirstIndex(q, x).v
RECURSIVE ReversedRange(_, _, _)
ReversedRange(a, b, c) == \* start, stop, step of the range with the same items backwards
  LET d == b - a
      q == IF c > 0 THEN d \div c ELSE (-d) \div (-c)
      rem == d - q * c
      steps == q - (IF rem = 0 THEN 1 ELSE 0)
      s == a + steps * c
  IN <<s, s + steps * (-c) + (-c + rem), -c>>
Backwards == \A c \in {-3, -2, -1, 1, 2, 3} : Len(items) >= 2 =>
               LET a == items[1] b == items[2] r == ReversedRange(a, b, c)
               IN RangeSeq(r[1], r[2], r[3]) = Rev(RangeSeq(a, b, c))
Slices == \A a, b \in {<<>>, <<-1>>, <<0>>, <<1>>, <<7>>, <<-7>>} : \A c \in {-2, -1, 1, 2} :
            Elements(SliceSeq(R("asc"), a, b, c)) \subseteq Elements(items)
EmitItems == Emit(items)
=============================================================================

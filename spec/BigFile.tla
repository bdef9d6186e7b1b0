------------------------------ MODULE BigFile -------------------------------
(* Files larger than the numbers of TLC: positions are pairs <<hi, lo>> standing for
   hi * Base + lo.  A file is described by runs of traces of equal length, and the bytes
   of the samples by a function of their position. *)
EXTENDS Integers, Sequences
CONSTANTS Base,     \* lo is below it
          HeadLen   \* bytes of a trace header
Norm(hi, lo) == <<hi + lo \div Base, lo % Base>>
Big(n) == <<n \div Base, n % Base>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
(* x below 2^17 and y below 2^19, when Base is 1024 *)
Times(x, y) == Norm(x * (y \div Base), x * (y % Base))

RECURSIVE NumTraces(_), PosFrom(_, _, _, _), LenOf(_, _), Longest(_)
NumTraces(runs) == IF runs = <<>> THEN 0 ELSE runs[1].count + NumTraces(Tail(runs))
(* where trace t starts when the first of these runs starts at start; w: bytes of a sample *)
PosFrom(runs, w, start, t) ==
  IF runs = <<>> \/ t < runs[1].count THEN Plus(start, Times(t, IF runs = <<>> THEN 0 ELSE HeadLen + w * runs[1].len))
  ELSE PosFrom(Tail(runs), w, Plus(start, Times(runs[1].count, HeadLen + w * runs[1].len)), t - runs[1].count)
LenOf(runs, t) == IF t < runs[1].count THEN runs[1].len ELSE LenOf(Tail(runs), t - runs[1].count)
Longest(runs) == IF runs = <<>> THEN 0 ELSE LET m == Longest(Tail(runs)) IN IF runs[1].len > m THEN runs[1].len ELSE m
(* the byte at a position among the samples *)
Fill(p) == (p[1] + 7 * p[2]) % 251
SampleBytes(runs, w, start, t, j) == LET p == Plus(PosFrom(runs, w, start, t), Big(HeadLen + w * j)) IN [k \in 1..w |-> Fill(Plus(p, Big(k - 1)))]
=============================================================================

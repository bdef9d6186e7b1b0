------------------------------- MODULE Survey --------------------------------
(* Large catalogs, given by rules instead of item by item: the keys of a line are
   k0 + dk * n, those of a grid run over ni * nj pairs, row by row or column by column, and the value of item n is
   v0 + dv * ((n * mult) % m), so that with mult 1 the values follow the keys and
   with another one they are scattered over them.  One item may be left out.
   Everything about such a mapping has a closed form, which SurveyMC compares with
   the mapping of the items. *)
EXTENDS Integers, Sequences

(* p: shape, i0, di, ni, j0, dj, nj, v0, dv, mult, inv, hole *)
Total(p) == p.ni * p.nj
Sound(p) == /\ p.shape \in {"line", "rows", "cols"} /\ (p.shape = "line" => p.nj = 1)
            /\ p.ni > 0 /\ p.nj > 0 /\ p.di > 0 /\ p.dj > 0 /\ p.hole \in -1..(Total(p) - 1)
            /\ (p.mult * p.inv) % Total(p) = 1 % Total(p)
Len0(p) == IF p.hole >= 0 THEN Total(p) - 1 ELSE Total(p)
KeyOf(p, n) == CASE p.shape = "line" -> <<p.i0 + p.di * n>>
                 [] p.shape = "rows" -> <<p.i0 + p.di * (n \div p.nj), p.j0 + p.dj * (n % p.nj)>>
                 [] p.shape = "cols" -> <<p.i0 + p.di * (n % p.ni), p.j0 + p.dj * (n \div p.ni)>>
ValueOf(p, n) == p.v0 + p.dv * ((n * p.mult) % Total(p))
At(x, x0, dx, nx) == IF x >= x0 /\ (x - x0) % dx = 0 /\ (x - x0) \div dx < nx THEN (x - x0) \div dx ELSE -1
(* the item with a key, or -1 *)
ItemOf(p, key) ==
  LET a == At(key[1], p.i0, p.di, p.ni)
      b == IF p.shape = "line" THEN 0 ELSE At(key[2], p.j0, p.dj, p.nj)
      n == IF p.shape = "cols" THEN b * p.ni + a ELSE a * p.nj + b
  IN IF a < 0 \/ b < 0 \/ n = p.hole THEN -1 ELSE n
(* the item with a value, or -1; the values differ when dv is not zero *)
ItemWith(p, v) ==
  LET d == IF p.dv > 0 THEN v - p.v0 ELSE p.v0 - v
      s == IF p.dv > 0 THEN p.dv ELSE 0 - p.dv
      n == IF d >= 0 /\ d % s = 0 /\ d \div s < Total(p) THEN ((d \div s) * p.inv) % Total(p) ELSE -1
  IN IF n = p.hole THEN -1 ELSE n
(* with a hole, both axes are still complete if there is more than one row and column *)
AxisI(p) == [k \in 1..p.ni |-> p.i0 + p.di * (k - 1)]
AxisJ(p) == [k \in 1..p.nj |-> p.j0 + p.dj * (k - 1)]
=============================================================================

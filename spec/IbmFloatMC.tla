----------------------------- MODULE IbmFloatMC ------------------------------
(* C15, C16 at small scale: every IBM number and every real number of a small format;
   real numbers are compared by their value as an integer multiple of the smallest one. *)
EXTENDS IbmFloat, Scenario, FiniteSets
CONSTANTS NegMinE, TopE
MinE == -NegMinE
VARIABLES x, r
vars == <<x, r>>
IbmNumbers == [s : {0, 1}, e : 0..MaxExp, m : 0..(Two_F - 1)]
Reals == {ZeroR} \cup [s : {0, 1}, e : MinE..TopE, hi : Half..(Two_F - 1), lo : 0..(Pow2(LoBits) - 1)]
Init == x \in IbmNumbers /\ r = ZeroR
(* all real numbers next to each other, going up through the positive ones *)
InitR == x = ZeroI /\ \E e \in MinE..TopE : r = R(0, e, Half, 0)
Up(y) == IF y.lo + 1 < Pow2(LoBits) THEN [y EXCEPT !.lo = @ + 1]
         ELSE IF y.hi + 1 < Two_F THEN [y EXCEPT !.hi = @ + 1, !.lo = 0] ELSE R(0, y.e + 1, Half, 0)
NextR == UNCHANGED x /\ (r.e < TopE \/ r.hi < Two_F - 1 \/ r.lo < Pow2(LoBits) - 1) /\ r' = Up(r)
Stay == UNCHANGED vars
(* value in units of 2^(MinE - FracBits - LoBits) *)
Sign(y, v) == IF y.s = 1 THEN -v ELSE v
Value(y) == IF IsZeroR(y) THEN 0 ELSE Sign(y, (y.hi * Pow2(LoBits) + y.lo) * Pow2(y.e - MinE))
Unit == Pow2(FracBits + LoBits - MinE)        \* the value of 1
ValueI(y) == Value(Denotes(y))
(* --- IBM numbers *)
DenotesRight == ValueI(x) = Sign(x, x.m * Pow2(LoBits) * Pow2(4 * (x.e - Bias) - MinE))
NormalIsFixed == IsNormal(x) => Encode(Denotes(x)) = [k |-> "ok", v |-> x]
EncodeIsInverse == LET y == Encode(Denotes(x)) IN y.k = "ok" /\ Denotes(y.v) = Denotes(x)
NormalizeKeeps == CanNormalize(x) => Denotes(Normalized(x)) = Denotes(x) /\ IsNormal(Normalized(x))
NotNormalizable == ~CanNormalize(x) => \A y \in IbmNumbers : Denotes(y) = Denotes(x) => ~IsNormal(y)
Div(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
FloorV(v) == v \div Unit
IntegersRight == LET v == ValueI(x) d == Denotes(x) IN
                 /\ Value(Floor(d)) = FloorV(v) * Unit /\ Value(Ceil(d)) = -FloorV(-v) * Unit
                 /\ Value(IntegerPart(d)) = Div(v, Unit) * Unit
                 /\ LET n == Value(Rounded(d)) IN n % Unit = 0 /\ 2 * (IF v > n THEN v - n ELSE n - v) <= Unit
                                                 /\ (2 * (IF v > n THEN v - n ELSE n - v) = Unit => (n \div Unit) % 2 = 0)
RatioRight == LET d == Denotes(x) n == Numerator(d) q == Denominator(d)
              IN /\ IsInteger(n) /\ IsInteger(q)
                 /\ IsZeroR(d) \/ Scaled(n, 1 - q.e) = d
                 /\ q # PowerOfTwo(0) => ~IsInteger(Scaled(n, -1))
(* --- real numbers *)
NextUpI(y) == Value(Denotes([y EXCEPT !.m = @ + 1]))
MaxValue == Value(Denotes([s |-> 0, e |-> MaxExp, m |-> Two_F - 1]))
MinValue == Value(Denotes([s |-> 0, e |-> 0, m |-> 1]))
Truncates == LET y == Encode(r) v == Value(r) IN
   CASE y.k = "ok" -> LET w == ValueI(y.v) IN w <= v /\ (IF y.v.m + 1 < Two_F THEN v < NextUpI(y.v) ELSE v <= MaxValue \/ v - w < Pow2(LoBits) * Pow2(4 * (y.v.e - Bias) - MinE))
     [] y.name = "OverflowError" -> v > MaxValue
     [] y.name = "FloatingPointError" -> v < MinValue
RangeRight == LET v == Value(r) y == Encode(r) IN (v > MaxValue => y.k = "error" /\ y.name = "OverflowError") /\ (v < MinValue => y.k = "error" /\ y.name = "FloatingPointError")
              /\ (MinValue <= v /\ v <= MaxValue => y.k = "ok")
Symmetric == LET y == Encode(r) z == Encode(NegR(r)) IN y.k = z.k /\ (y.k = "ok" => z.v = [y.v EXCEPT !.s = 1])
BestIsNormal == LET y == Encode(r) IN y.k = "ok" => (y.v.m >= FirstDigit \/ y.v.e = 0)
Ordered == [][LET a == Encode(r) b == Encode(r') IN
              (a.k = "ok" /\ b.k = "ok") => CmpR(Denotes(a.v), Denotes(b.v)) <= 0]_r
CmpRight == [][CmpR(r, r') = -1 /\ CmpR(r', r) = 1 /\ CmpR(NegR(r), NegR(r')) = 1 /\ CmpR(NegR(r), r') = -1 /\ CmpR(r, r) = 0]_r
=============================================================================

------------------------------ MODULE IbmFloat -------------------------------
(* IBM hexadecimal floating point numbers and binary double precision numbers.

   IBM number  [s, e, m]: (-1)^s * m / 2^FracBits * 16^(e - Bias), 0 <= m < 2^FracBits,
               0 <= e <= MaxExp.  Every triple is a number; many have m = 0, and
               unnormalised ones have a leading zero hexadecimal digit.
   real number [s, e, hi, lo]: (-1)^s * 0.hilo * 2^e, where hi has FracBits bits, the first
               of them set, and lo has LoBits bits.  Zero is [0, 0, 0, 0].
   For the numbers of the code FracBits = 24, LoBits = 29 (a double has 53 bits),
   Bias = 64, MaxExp = 127; models use smaller ones.                                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS FracBits, LoBits, Bias, MaxExp

Pow2(n) == 2^n
Two_F == Pow2(FracBits)
Half == Pow2(FracBits - 1)
Digits == FracBits \div 4
FirstDigit == Pow2(FracBits - 4)       \* normalised numbers have m >= FirstDigit
ZeroR == [s |-> 0, e |-> 0, hi |-> 0, lo |-> 0]
R(s, e, hi, lo) == [s |-> s, e |-> e, hi |-> hi, lo |-> lo]
IsZeroR(x) == x.hi = 0
NegR(x) == IF IsZeroR(x) THEN x ELSE [x EXCEPT !.s = 1 - @]
AbsR(x) == [x EXCEPT !.s = 0]

(* the real number denoted *)
RECURSIVE LeadingZeros(_, _)
LeadingZeros(m, n) == IF m >= Half THEN n ELSE LeadingZeros(m * 2, n + 1)
Denotes(x) == IF x.m = 0 THEN ZeroR
              ELSE LET k == LeadingZeros(x.m, 0) IN R(x.s, 4 * (x.e - Bias) - k, x.m * Pow2(k), 0)
IsZero(x) == x.m = 0
IsNormal(x) == IF x.m = 0 THEN x.s = 0 /\ x.e = 0 ELSE x.m >= FirstDigit
ZeroI == [s |-> 0, e |-> 0, m |-> 0]

(* The IBM number for a real number: its magnitude cut down to FracBits bits, fewer when the
   power of two is not one of sixteen or the number is smaller than the normalised ones. *)
MaxE == 4 * (MaxExp - Bias)
TooLarge(x) == x.e > MaxE \/ (x.e = MaxE /\ x.hi = Two_F - 1 /\ x.lo > 0)
ShiftRight(m, n) == IF n >= FracBits THEN 0 ELSE m \div Pow2(n)
Encoded(x) ==
  LET shift == (4 - (x.e % 4)) % 4
      e16 == (x.e + shift) \div 4 + Bias
      under == IF e16 < 0 THEN -e16 ELSE 0
  IN [s |-> x.s, e |-> IF e16 < 0 THEN 0 ELSE e16, m |-> ShiftRight(x.hi, shift + IF under > Digits THEN FracBits ELSE 4 * under)]
TooSmall(x) == Encoded(x).m = 0
Encode(x) == CASE IsZeroR(x) -> [k |-> "ok", v |-> ZeroI]
               [] TooLarge(x) -> [k |-> "error", name |-> "OverflowError"]
               [] TooSmall(x) -> [k |-> "error", name |-> "FloatingPointError"]
               [] OTHER -> [k |-> "ok", v |-> Encoded(x)]

(* order: -1, 0 or 1 *)
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpMag(x, y) == IF IsZeroR(x) \/ IsZeroR(y) THEN Cmp(IF IsZeroR(x) THEN 0 ELSE 1, IF IsZeroR(y) THEN 0 ELSE 1)
                ELSE IF x.e # y.e THEN Cmp(x.e, y.e) ELSE IF x.hi # y.hi THEN Cmp(x.hi, y.hi) ELSE Cmp(x.lo, y.lo)
CmpR(x, y) == LET sx == IF IsZeroR(x) THEN 0 ELSE x.s
                  sy == IF IsZeroR(y) THEN 0 ELSE y.s
              IN IF sx # sy THEN Cmp(sy, sx) ELSE IF sx = 0 THEN CmpMag(x, y) ELSE CmpMag(y, x)

(* integers near a real number whose lo is 0 *)
IntegerPart(x) == IF x.e <= 0 \/ IsZeroR(x) THEN ZeroR
                  ELSE IF x.e >= FracBits THEN x
                  ELSE [x EXCEPT !.hi = (@ \div Pow2(FracBits - x.e)) * Pow2(FracBits - x.e)]
IsInteger(x) == IntegerPart(x) = x
One(s) == R(s, 1, Half, 0)
(* one further from zero; for magnitudes below 2^FracBits *)
Further(x, s) == IF IsZeroR(x) THEN One(s)
                 ELSE LET h == x.hi + Pow2(FracBits - x.e) IN IF h >= Two_F THEN R(x.s, x.e + 1, h \div 2, 0) ELSE [x EXCEPT !.hi = h]
Floor(x) == IF IsInteger(x) \/ x.s = 0 THEN IntegerPart(x) ELSE Further(IntegerPart(x), 1)
Ceil(x) == IF IsInteger(x) \/ x.s = 1 THEN IntegerPart(x) ELSE Further(IntegerPart(x), 0)
(* to the nearest integer, halves to the even one *)
Rounded(x) ==
  IF IsInteger(x) THEN x
  ELSE IF x.e < 0 THEN ZeroR
  ELSE LET unit == Pow2(FracBits - x.e)
           whole == IF x.e = 0 THEN 0 ELSE x.hi \div unit
           rest == IF x.e = 0 THEN x.hi ELSE x.hi % unit
           up == IF rest * 2 = unit THEN whole % 2 = 1 ELSE rest > unit \div 2
       IN IF up THEN Further(IntegerPart(x), x.s) ELSE IntegerPart(x)

(* the odd part of the magnitude and the power of two it is multiplied by: the reduced ratio *)
RECURSIVE TrailingZeros(_, _)
TrailingZeros(m, n) == IF m % 2 = 1 THEN n ELSE TrailingZeros(m \div 2, n + 1)
PowerOfTwo(k) == R(0, k + 1, Half, 0)
Numerator(x) == IF IsZeroR(x) THEN ZeroR
                ELSE LET tz == TrailingZeros(x.hi, 0) t == x.e - FracBits + tz
                     IN IF t >= 0 THEN x ELSE [x EXCEPT !.e = FracBits - tz]
Denominator(x) == IF IsZeroR(x) THEN PowerOfTwo(0)
                  ELSE LET t == x.e - FracBits + TrailingZeros(x.hi, 0) IN PowerOfTwo(IF t >= 0 THEN 0 ELSE -t)
(* times a power of two *)
Scaled(x, k) == IF IsZeroR(x) THEN x ELSE [x EXCEPT !.e = @ + k]

(* the normalised representation of the same number, if there is one *)
RECURSIVE ZeroDigits(_, _)
ZeroDigits(m, n) == IF m >= FirstDigit THEN n ELSE ZeroDigits(m * 16, n + 1)
CanNormalize(x) == IsZero(x) \/ ZeroDigits(x.m, 0) <= x.e
Normalized(x) == IF IsZero(x) THEN ZeroI ELSE LET d == ZeroDigits(x.m, 0) IN [x EXCEPT !.e = @ - d, !.m = @ * Pow2(4 * d)]
=============================================================================

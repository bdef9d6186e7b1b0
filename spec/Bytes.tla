-------------------------------- MODULE Bytes --------------------------------
(* Byte sequences and two's complement integers.  TLC integers are 32 bits wide,
   which is exactly the range of the widest SEG-Y field. *)
EXTENDS Integers, Sequences, TLC

Big == ">"
Little == "<"
Byte == 0..255

Reverse_(b) == TLCEval([k \in 1..Len(b) |-> b[Len(b) + 1 - k]])
SignedByte(x) == IF x >= 128 THEN x - 256 ELSE x
(* most significant byte first; the top byte carries the sign *)
IntOfBE(b) == CASE Len(b) = 1 -> SignedByte(b[1])
                [] Len(b) = 2 -> SignedByte(b[1]) * 256 + b[2]
                [] Len(b) = 4 -> ((SignedByte(b[1]) * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
IntOf(b, endian) == IF endian = Big THEN IntOfBE(b) ELSE IntOfBE(Reverse_(b))
(* floor division and modulus by 256 make this two's complement for negative v *)
BytesOfBE(v, w) == CASE w = 1 -> <<v % 256>>
                     [] w = 2 -> <<(v \div 256) % 256, v % 256>>
                     [] w = 4 -> <<(v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
BytesOf(v, w, endian) == IF endian = Big THEN BytesOfBE(v, w) ELSE Reverse_(BytesOfBE(v, w))
Fits(v, w) == CASE w = 1 -> v \in -128..127 [] w = 2 -> v \in -32768..32767 [] w = 4 -> TRUE
(* w bytes at 1-based position p *)
At(b, p, w) == SubSeq(b, p, p + w - 1)
Zeros(n) == [k \in 1..n |-> 0]
RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN Concat(TLCEval(SubSeq(ss, 1, h))) \o Concat(TLCEval(SubSeq(ss, h + 1, Len(ss))))
FlattenB(ss) == Concat(TLCEval(ss))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
=============================================================================

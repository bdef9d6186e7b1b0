------------------------------- MODULE BytesMC -------------------------------
EXTENDS Bytes, TLC
VARIABLE v
Vals == (-40000..40000) \cup {-2147483647 - 1, -2147483647, 2147483647, 2147483646, 16777216, -16777216, 16777215, -16777217, 8388608, 65535, 65536, -65536, -65537}
Init == v \in Vals
Next == UNCHANGED v
RoundTrip == \A w \in {1, 2, 4}, e \in {Big, Little} : Fits(v, w) => IntOf(BytesOf(v, w, e), e) = v /\ \A k \in 1..w : BytesOf(v, w, e)[k] \in Byte
Reversal == \A w \in {2, 4} : Fits(v, w) => BytesOf(v, w, Little) = Reverse_(BytesOf(v, w, Big))
=============================================================================

------------------------------ MODULE TraceIbm -------------------------------
(* C15, C16: recorded operations on IBM floats judged by module IbmFloat.  Four bytes are a
   sequence of numbers; a real number is <<s, e, hi, lo>> where the last bit of lo stands for
   everything after the 53 bits before it; <<0>>, <<1>>, <<-1>> are NaN and the infinities. *)
EXTENDS TraceBase, IbmFloat
Init0 == [x |-> 0]
Apply(s, ev) == s
OfBytes(b) == [s |-> b[1] \div 128, e |-> b[1] % 128, m |-> b[2] * 65536 + b[3] * 256 + b[4]]
ToBytes(x) == <<x.s * 128 + x.e, x.m \div 65536, (x.m \div 256) % 256, x.m % 256>>
IsNum(v) == Len(v) = 4
Num(v) == R(v[1], v[2], v[3], v[4])
Flat(r) == <<r.s, r.e, r.hi, r.lo>>
IsReal(res, r) == IsOk(res) /\ IsNum(res.v) /\ Num(res.v) = r
Val(b) == Denotes(OfBytes(b))
(* the outcome of encoding v: lenient when underflow gives zero *)
Encodes(res, v, lenient) ==
  IF ~IsNum(v) THEN Raised(res, "ValueError")
  ELSE LET y == Encode(Num(v))
       IN IF y.k = "ok" THEN Returned(res, ToBytes(y.v))
          ELSE IF lenient /\ y.name = "FloatingPointError" THEN IsOk(res) /\ IsZero(OfBytes(res.v))
          ELSE Raised(res, y.name)
(* a sequence is packed element by element, the first one which cannot be encoded decides *)
BytesOf(xs) == [k \in 1..Len(xs) |-> IF xs[k].k = "ibm" THEN [k |-> "ok", v |-> xs[k].b]
                                     ELSE IF ~IsNum(xs[k].v) THEN [k |-> "error", name |-> "ValueError"]
                                     ELSE LET y == Encode(Num(xs[k].v)) IN IF y.k = "ok" THEN [k |-> "ok", v |-> ToBytes(y.v)] ELSE y]
Packs(res, xs) ==
  LET bs == TLCEval(BytesOf(xs)) fail == {k \in 1..Len(bs) : bs[k].k = "error"}
  IN IF fail # {} THEN Raised(res, bs[CHOOSE k \in fail : \A j \in fail : k <= j].name)
     ELSE Returned(res, [k \in 1..(4 * Len(xs)) |-> bs[(k - 1) \div 4 + 1].v[((k - 1) % 4) + 1]])
Unpacks(ev) == IF Len(ev.data) < 4 * ev.n THEN Raised(ev.bytes, "ValueError")
               ELSE /\ Returned(ev.bytes, [k \in 1..ev.n |-> SubSeq(ev.data, 4 * k - 3, 4 * k)])
                    /\ IsOk(ev.reals) /\ Len(ev.reals.v) = ev.n
                    /\ \A k \in 1..ev.n : IsNum(ev.reals.v[k]) /\ Num(ev.reals.v[k]) = Val(SubSeq(ev.data, 4 * k - 3, 4 * k))

(* --- one number *)
SameValue(res, r) == IsOk(res) /\ Val(res.v) = r
One_(p) ==
  LET x == TLCEval(OfBytes(p.b)) d == TLCEval(Denotes(x)) whole == IsInteger(d) IN
  [sign |-> IF IsZero(x) THEN IsOk(p.signbit) ELSE Returned(p.signbit, x.s = 1),
   zero_tests |-> Returned(p.zero, IsZero(x)) /\ Returned(p.truth, ~IsZero(x)),
   subnormal |-> Returned(p.subnormal, ~IsNormal(x)) /\ SameValue(p.zeroed, IF IsNormal(x) THEN d ELSE ZeroR),
   negation |-> SameValue(p.neg, NegR(d)),
   absolute |-> SameValue(p.abs, AbsR(d)),
   identity |-> SameValue(p.pos, d),
   truncation |-> IsReal(p.trunc, IntegerPart(d)) /\ IsReal(p.int, IntegerPart(d)),
   floor |-> IsOk(p.floor) /\ (Num(p.floor.v[1]) = Floor(d) \/ (whole /\ x.s = 1 /\ Num(p.floor.v[2]) = Floor(d))),
   kf_floor_exact |-> ~(whole /\ x.s = 1 /\ IsOk(p.floor) /\ Num(p.floor.v[1]) # Floor(d) /\ Num(p.floor.v[2]) = Floor(d)),
   ceiling |-> IsOk(p.ceil) /\ (Num(p.ceil.v[1]) = Ceil(d) \/ (whole /\ x.s = 0 /\ Num(p.ceil.v[2]) = Ceil(d))),
   kf_ceil_exact |-> ~(whole /\ x.s = 0 /\ IsOk(p.ceil) /\ Num(p.ceil.v[1]) # Ceil(d) /\ Num(p.ceil.v[2]) = Ceil(d)),
   rounding |-> IsReal(p.round, Rounded(d)),
   integer_ratio |-> IsOk(p.ratio) /\ Num(p.ratio.v[1]) = Numerator(d) /\ Num(p.ratio.v[2]) = Denominator(d),
   split |-> IsOk(p.frexp) /\ IsNum(p.frexp.v.f) /\ Scaled(Num(p.frexp.v.f), p.frexp.v.e) = d /\ CmpMag(Num(p.frexp.v.f), One(0)) <= 0,
   joined |-> CanNormalize(x) /\ ~IsZero(x) => Returned(p.joined, ToBytes(Normalized(x))),
   normalisation |-> /\ IF CanNormalize(x) THEN Returned(p.normalize, ToBytes(Normalized(x))) ELSE Raised(p.normalize, "FloatingPointError")
                     /\ Returned(p.try_normalize, IF CanNormalize(x) THEN ToBytes(Normalized(x)) ELSE p.b)]
(* --- two numbers; the second may be any real number *)
Order(p) == IF IsNum(p.v) THEN CmpR(Val(p.b), Num(p.v)) ELSE -p.v[1]
IsNaN(p) == ~IsNum(p.v) /\ p.v[1] = 0
Truth(f, c) == CASE f = "lt" -> c < 0 [] f = "le" -> c <= 0 [] f = "gt" -> c > 0 [] f = "ge" -> c >= 0 [] f = "eq" -> c = 0 [] f = "ne" -> c # 0
Compares(p) == LET c == TLCEval(Order(p)) nan == IsNaN(p)
                   Want(f, k) == IF nan THEN f = "ne" ELSE Truth(f, k)
               IN [comparison |-> \A f \in {"lt", "le", "gt", "ge"} : Returned(p.r[f], Want(f, c)) /\ (Has(p, "q") => Returned(p.q[f], Want(f, -c))),
                   equality |-> \A f \in {"eq", "ne"} : Returned(p.r[f], Want(f, c)) /\ (Has(p, "q") => Returned(p.q[f], Want(f, -c))),
                   operands |-> p.w.k = "ibm" => Num(p.v) = Val(p.w.b)]
(* Arithmetic: p.host is what double precision arithmetic gives for the operands p.x and p.y. *)
Operand(o) == o.k = "ibm" => Num(o.v) = Val(o.b)
Arithmetic(p) ==
  LET both == p.x.k = "ibm" /\ p.y.k = "ibm"
      may == both \/ (p.f = "div" /\ p.x.k = "float")        \* may be cut down to an IBM float
      host == p.host
  IN [operands |-> Operand(p.x) /\ Operand(p.y),
      arithmetic |-> IF ~IsOk(host) THEN IsExc(p.res) /\ \E j \in DOMAIN p.res.m : p.res.m[j] = host.t
                     ELSE LET trunc == IF IsOk(p.res) THEN p.res.v.ibm /\ Encodes([k |-> "ok", v |-> p.res.v.b], host.v, TRUE)
                                       ELSE Encodes(p.res, host.v, TRUE)
                              double == IsOk(p.res) /\ ~p.res.v.ibm /\ p.res.v.v = host.v
                          IN IF p.f = "floordiv" THEN IsOk(p.res) /\ (p.res.v.v = host.v \/ p.res.v.v = p.host2.v)
                             ELSE IF both THEN trunc ELSE (may /\ trunc) \/ double]
Ldexps(p) == IF ~IsNum(p.v) \/ p.e < -256 \/ p.e > 255 THEN Raised(p.res, "ValueError")
             ELSE IF CmpMag(Num(p.v), One(0)) > 0 THEN Raised(p.res, "ValueError")
             ELSE Encodes(p.res, Flat(Scaled(Num(p.v), p.e)), FALSE)
All(items, F(_)) == LET rs == TLCEval([k \in 1..Len(items) |-> TLCEval(F(items[k]))])
                    IN [c \in UNION {DOMAIN rs[k] : k \in 1..Len(rs)} |-> \A k \in 1..Len(rs) : c \in DOMAIN rs[k] => rs[k][c]]
Clauses(s, ev) ==
  CASE ev.op = "begin" -> NoClauses
    [] ev.op = "f_decode" -> [decoding |-> \A k \in 1..Len(ev.items) : IsReal(ev.items[k].r, Val(ev.items[k].b))]
    [] ev.op = "f_encode" -> [encoding |-> \A k \in 1..Len(ev.items) : Encodes(ev.items[k].r, ev.items[k].x, ev.lenient)]
    [] ev.op = "f_again" -> [bytes_again |-> \A k \in 1..Len(ev.items) : LET p == ev.items[k] x == OfBytes(p.b) IN
                                IF IsNormal(x) THEN Returned(p.r, p.b) ELSE IsOk(p.r) /\ Val(p.r.v) = Denotes(x)]
    [] ev.op = "f_construct" -> [construction |-> IF Len(ev.b) = 4 THEN Returned(ev.res, ev.b) ELSE Raised(ev.res, "ValueError")]
    [] ev.op = "f_pack" -> [packing |-> Packs(ev.res, ev.xs)]
    [] ev.op = "f_unpack" -> [unpacking |-> Unpacks(ev)]
    [] ev.op = "f_one" -> All(ev.items, One_)
    [] ev.op = "f_compare" -> All(ev.items, Compares)
    [] ev.op = "f_arith" -> All(ev.items, Arithmetic)
    [] ev.op = "f_ldexp" -> [joining |-> \A k \in 1..Len(ev.items) : Ldexps(ev.items[k])]
VARIABLES i, st, bad
TM == INSTANCE TraceMain
TInit == TM!Init
TNext == TM!Next
TAlias == [i |-> i]
=============================================================================

------------------------------- MODULE Catalog -------------------------------
(* Catalogs: immutable mappings from unique integer keys or pairs of integers
   to values (segpy/catalog.py).

   The contract is CatalogOf: the mapping with the given items, or no mapping
   when a key is repeated.  Build models the representations the implementation
   chooses between - a start/stop/stride arithmetic description of the keys
   and/or the values, or an explicit dictionary - and the way each of them
   answers a lookup without storing the items.  Keys are sequences of length
   one (scalars) or two (pairs). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

--------------------------------------------------------------------------
(* The contract. *)
NoCatalog == [kind |-> "none"]

KeysOf(items) == {items[n].key : n \in 1..Len(items)}
HasRepeatedKey(items) == Cardinality(KeysOf(items)) # Len(items)
ValueAt(items, key) == items[CHOOSE n \in 1..Len(items) : items[n].key = key].value
MappingOf(items) == TLCEval([key \in KeysOf(items) |-> ValueAt(items, key)])

Less1(a, b) == a[1] < b[1]
LessRow(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LessCol(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Sorted(seq, Op(_, _)) == \A n \in 1..(Len(seq) - 1) : Op(seq[n], seq[n + 1])
(* strict, so an iteration sorted in this sense has no repeats *)
InKeyOrder(seq) == IF \A n \in 1..Len(seq) : Len(seq[n]) = 1 THEN Sorted(seq, Less1)
                   ELSE Sorted(seq, LessRow) \/ Sorted(seq, LessCol)
RangeOf(seq) == {seq[n] : n \in 1..Len(seq)}
Axis(map, a) == {key[a] : key \in DOMAIN map}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
KeyMin(map) == <<SetMin(Axis(map, 1)), SetMin(Axis(map, 2))>>
KeyMax(map) == <<SetMax(Axis(map, 1)), SetMax(Axis(map, 2))>>
KeysWithValue(map, v) == {key \in DOMAIN map : map[key] = v}

--------------------------------------------------------------------------
(* Model of the representations. *)
RowOrder(x, y) == LessRow(x.key, y.key)
ColOrder(x, y) == LessCol(x.key, y.key)
ScalarOrder(x, y) == Less1(x.key, y.key)

Stride(seq) == \* the common difference of at least two numbers: <<d>>, or <<>> if there is none
  LET d == {seq[n + 1] - seq[n] : n \in 1..(Len(seq) - 1)}
  IN IF Cardinality(d) = 1 THEN <<CHOOSE x \in d : TRUE>> ELSE <<>>
IsNumber(s) == s # <<>>

RECURSIVE AscSeq(_)
AscSeq(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o AscSeq(S \ {SetMin(S)})
Regular(seq) == Len(seq) <= 1 \/ (IsNumber(Stride(seq)) /\ Stride(seq) # <<0>>)
StrictlyMonotone(seq) == \/ \A n \in 1..(Len(seq) - 1) : seq[n] < seq[n + 1]
                         \/ \A n \in 1..(Len(seq) - 1) : seq[n] > seq[n + 1]

Scalars(items) == [n \in 1..Len(items) |-> items[n].key[1]]
Values(items) == [n \in 1..Len(items) |-> items[n].value]

DictRep(items) == [kind |-> "dict", items |-> items]

BuildScalar(raw) ==
  LET items == SortSeq(raw, ScalarOrder)
      ks == Scalars(items)
      vs == Values(items)
      n == Len(items)
  IN IF n <= 1 THEN DictRep(items)
     ELSE LET s == Stride(ks)
              t == Stride(vs)
          IN IF IsNumber(s) /\ t = <<0>> THEN [kind |-> "regular_constant", lo |-> ks[1], hi |-> ks[n], stride |-> s[1], value |-> vs[1]]
             ELSE IF ~IsNumber(s) /\ t = <<0>> THEN [kind |-> "constant", keys |-> RangeOf(ks), value |-> vs[1]]
             ELSE IF IsNumber(s) /\ ~IsNumber(t) THEN [kind |-> "regular", lo |-> ks[1], hi |-> ks[n], stride |-> s[1], values |-> vs]
             ELSE IF IsNumber(s) THEN [kind |-> "linear", lo |-> ks[1], hi |-> ks[n], stride |-> s[1], first |-> vs[1], last |-> vs[n]]
             ELSE DictRep(items)

GridOf(items) ==
  LET is == AscSeq({items[n].key[1] : n \in 1..Len(items)})
      js == AscSeq({items[n].key[2] : n \in 1..Len(items)})
  IN [is |-> is, js |-> js, vs |-> Values(items),
      fits |-> /\ Len(is) * Len(js) = Len(items)
               /\ StrictlyMonotone(Values(items))
               /\ Regular(is) /\ Regular(js) /\ Regular(Values(items))]
BuildPair(raw) ==
  LET rows == SortSeq(raw, RowOrder)
      cols == SortSeq(raw, ColOrder)
      g == GridOf(rows)
      h == GridOf(cols)
  IN IF g.fits THEN [kind |-> "rows", is |-> g.is, js |-> g.js, vs |-> g.vs]
     ELSE IF h.fits THEN [kind |-> "cols", is |-> h.is, js |-> h.js, vs |-> h.vs]
     ELSE DictRep(rows)

Build(items) == IF HasRepeatedKey(items) THEN NoCatalog
                ELSE IF \A n \in 1..Len(items) : Len(items[n].key) = 2 THEN BuildPair(items)
                ELSE BuildScalar(items)

PosIn(seq, x) == CHOOSE n \in 1..Len(seq) : seq[n] = x
RepHas(r, key) ==
  CASE r.kind = "dict" -> key \in KeysOf(r.items)
    [] r.kind = "constant" -> key[1] \in r.keys
    [] r.kind \in {"regular", "regular_constant", "linear"} -> r.lo <= key[1] /\ key[1] <= r.hi /\ (key[1] - r.lo) % r.stride = 0
    [] r.kind \in {"rows", "cols"} -> key[1] \in RangeOf(r.is) /\ key[2] \in RangeOf(r.js)
RepGet(r, key) == \* only for keys which RepHas
  CASE r.kind = "dict" -> ValueAt(r.items, key)
    [] r.kind \in {"constant", "regular_constant"} -> r.value
    [] r.kind = "regular" -> r.values[1 + (key[1] - r.lo) \div r.stride]
    [] r.kind = "linear" -> ((r.last - r.first) * (key[1] - r.lo)) \div (r.hi - r.lo) + r.first
    [] r.kind = "rows" -> r.vs[(PosIn(r.is, key[1]) - 1) * Len(r.js) + PosIn(r.js, key[2])]
    [] r.kind = "cols" -> r.vs[(PosIn(r.js, key[2]) - 1) * Len(r.is) + PosIn(r.is, key[1])]
RepLen(r) ==
  CASE r.kind = "dict" -> Len(r.items)
    [] r.kind = "constant" -> Cardinality(r.keys)
    [] r.kind \in {"regular", "regular_constant", "linear"} -> 1 + (r.hi - r.lo) \div r.stride
    [] r.kind \in {"rows", "cols"} -> Len(r.is) * Len(r.js)
RepIter(r) ==
  CASE r.kind = "dict" -> [n \in 1..Len(r.items) |-> r.items[n].key]
    [] r.kind = "constant" -> [n \in 1..Cardinality(r.keys) |-> <<AscSeq(r.keys)[n]>>]
    [] r.kind \in {"regular", "regular_constant", "linear"} -> [n \in 1..RepLen(r) |-> <<r.lo + (n - 1) * r.stride>>]
    [] r.kind = "rows" -> [n \in 1..RepLen(r) |-> <<r.is[1 + (n - 1) \div Len(r.js)], r.js[1 + ((n - 1) % Len(r.js))]>>]
    [] r.kind = "cols" -> [n \in 1..RepLen(r) |-> <<r.is[1 + ((n - 1) % Len(r.is))], r.js[1 + (n - 1) \div Len(r.is)]>>]
RepKey(r, v) == \* reverse lookup offered by the grid representations
  LET n == PosIn(r.vs, v) IN RepIter(r)[n]

(* The representation is indistinguishable from the mapping. *)
Faithful(items, probes) ==
  LET r == Build(items)
      map == MappingOf(items)
  IN IF HasRepeatedKey(items) THEN r = NoCatalog
     ELSE /\ RepLen(r) = Len(items)
          /\ InKeyOrder(RepIter(r)) /\ RangeOf(RepIter(r)) = DOMAIN map
          /\ \A key \in probes : RepHas(r, key) <=> key \in DOMAIN map
          /\ \A key \in DOMAIN map : RepGet(r, key) = map[key]
          /\ r.kind \in {"rows", "cols"} => \A key \in DOMAIN map : RepKey(r, map[key]) = key
=============================================================================

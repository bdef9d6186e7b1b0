---------------------------- MODULE TraceCatalog -----------------------------
(* Judges catalogs observed through the mapping protocol against the mapping
   which the model gives for the same items, and the model's representation
   against the answers (so the representation model is bound as well). *)
EXTENDS TraceBase, Catalog, Survey
Init0 == [x |-> 0]
Apply(s, ev) == s

ProbeOk(map, p) ==
  IF p.key \in DOMAIN map
  THEN Returned(p.has, TRUE) /\ Returned(p.item, map[p.key]) /\ Returned(p.get, map[p.key])
  ELSE Returned(p.has, FALSE) /\ Raised(p.item, "KeyError") /\ Returned(p.get, -999)
(* Probing with a key of the other arity is only meaningful for an empty catalog. *)
SurveyProbeOk(p, q) ==
  LET n == ItemOf(p, q.key)
  IN IF n >= 0
     THEN Returned(q.has, TRUE) /\ Returned(q.item, ValueOf(p, n)) /\ Returned(q.get, ValueOf(p, n))
     ELSE Returned(q.has, FALSE) /\ Raised(q.item, "KeyError") /\ Returned(q.get, -999)
SurveyClauses(ev) ==
  LET p == ev.survey
      n == Len0(p)
  IN IF ~Sound(p) THEN [unsound_record |-> FALSE]
     ELSE IF ev.repeated THEN [repeated_key_gives_none |-> Returned(ev.made, "none")]
     ELSE IF ~Returned(ev.made, "catalog") THEN [creates_a_mapping |-> FALSE]
     ELSE [pickles |-> (ev.copied => IsOk(ev.copy)),
           length |-> Returned(ev.len, n),
           iteration |-> IsOk(ev.iter) /\ Len(ev.iter.v) = n /\ \A k \in 1..Len(ev.iter.v) : ItemOf(p, ev.iter.v[k]) >= 0,
           iteration_order |-> IsOk(ev.iter) => InKeyOrder(ev.iter.v),
           iteration_again |-> ev.again = ev.iter,
           lookup |-> \A k \in 1..Len(ev.probes) : SurveyProbeOk(p, ev.probes[k]),
           values |-> IsOk(ev.values) /\ IsOk(ev.iter) /\ Len(ev.values.v) = Len(ev.iter.v)
                      /\ \A k \in 1..Len(ev.iter.v) : LET m == ItemOf(p, ev.iter.v[k]) IN m >= 0 => ev.values.v[k] = ValueOf(p, m),
           items |-> IsOk(ev.pairs) /\ Len(ev.pairs.v) = n
                      /\ \A k \in 1..Len(ev.pairs.v) : LET m == ItemOf(p, ev.pairs.v[k].key) IN m >= 0 /\ ValueOf(p, m) = ev.pairs.v[k].value,
           equality |-> Returned(ev.equal, TRUE),
           bounds |-> ev.grid =>
                       /\ Returned(ev.i, AxisI(p)) /\ Returned(ev.j, AxisJ(p))
                       /\ Returned(ev.bounds, <<KeyOf(p, 0)[1], KeyOf(p, Total(p) - 1)[1], KeyOf(p, 0)[2], KeyOf(p, Total(p) - 1)[2]>>)
                       /\ Returned(ev.key_min, KeyOf(p, 0)) /\ Returned(ev.key_max, KeyOf(p, Total(p) - 1)),
           bound_values |-> ev.grid =>
                       /\ IF p.hole = 0 THEN Raised(ev.first, "KeyError") ELSE Returned(ev.first, ValueOf(p, 0))
                       /\ IF p.hole = Total(p) - 1 THEN Raised(ev.last, "KeyError") ELSE Returned(ev.last, ValueOf(p, Total(p) - 1)),
           reverse |-> \A k \in 1..Len(ev.reverse) :
                         LET q == ev.reverse[k]
                         IN IF p.dv = 0
                            THEN IF q.value = p.v0 THEN IsOk(q.key) /\ ItemOf(p, q.key.v) >= 0 ELSE Raised(q.key, "ValueError")
                            ELSE LET m == ItemWith(p, q.value) IN IF m < 0 THEN Raised(q.key, "ValueError") ELSE Returned(q.key, KeyOf(p, m))]

Clauses(s, ev) ==
  IF ev.op = "begin" THEN NoClauses
  ELSE IF ev.op = "survey" THEN SurveyClauses(ev)
  ELSE IF HasRepeatedKey(ev.items)
  THEN [repeated_key_gives_none |-> Returned(ev.made, "none")]
  ELSE IF ~Returned(ev.made, "catalog") THEN [creates_a_mapping |-> FALSE]
  ELSE LET map == MappingOf(ev.items)
           n == Len(ev.items)
       IN [creates_a_mapping |-> TRUE,
           pickles |-> (ev.copied => IsOk(ev.copy)),
           length |-> Returned(ev.len, n),
           iteration |-> IsOk(ev.iter) /\ Len(ev.iter.v) = n /\ RangeOf(ev.iter.v) = DOMAIN map,
           iteration_order |-> IsOk(ev.iter) => InKeyOrder(ev.iter.v),
           iteration_again |-> ev.again = ev.iter,
           lookup |-> \A k \in 1..Len(ev.probes) : ProbeOk(map, ev.probes[k]),
           values |-> IsOk(ev.values) /\ IsOk(ev.iter) /\ Len(ev.values.v) = Len(ev.iter.v)
                      /\ \A k \in 1..Len(ev.iter.v) : ev.iter.v[k] \in DOMAIN map => ev.values.v[k] = map[ev.iter.v[k]],
           items |-> IsOk(ev.pairs) /\ Len(ev.pairs.v) = n
                      /\ \A k \in 1..Len(ev.pairs.v) : ev.pairs.v[k].key \in DOMAIN map /\ map[ev.pairs.v[k].key] = ev.pairs.v[k].value,
           equality |-> Returned(ev.equal, TRUE),
           bounds |-> ev.grid /\ n > 0 =>
                       /\ Returned(ev.i, AscSeq(Axis(map, 1))) /\ Returned(ev.j, AscSeq(Axis(map, 2)))
                       /\ Returned(ev.bounds, <<KeyMin(map)[1], KeyMax(map)[1], KeyMin(map)[2], KeyMax(map)[2]>>)
                       /\ Returned(ev.key_min, KeyMin(map)) /\ Returned(ev.key_max, KeyMax(map)),
           bound_values |-> ev.grid /\ n > 0 =>
                       /\ IF KeyMin(map) \in DOMAIN map THEN Returned(ev.first, map[KeyMin(map)]) ELSE Raised(ev.first, "KeyError")
                       /\ IF KeyMax(map) \in DOMAIN map THEN Returned(ev.last, map[KeyMax(map)]) ELSE Raised(ev.last, "KeyError"),
           reverse |-> \A k \in 1..Len(ev.reverse) :
                         LET q == ev.reverse[k]
                             ks == KeysWithValue(map, q.value)
                         IN IF ks = {} THEN Raised(q.key, "ValueError") ELSE IsOk(q.key) /\ q.key.v \in ks]

VARIABLES i, st, bad
TM == INSTANCE TraceMain
TInit == TM!Init
TNext == TM!Next
TAlias == [i |-> i]
=============================================================================

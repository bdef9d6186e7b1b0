----------------------------- MODULE CatalogMC ------------------------------
(* Builder histories: items are added one at a time in any order, then the
   catalog is created.  Every item list over the bounded keys and values is
   reached; the generated scenarios are exactly the reached item lists. *)
EXTENDS Catalog, Scenario
CONSTANTS ScalarKeys, PairI, PairJ, Vals, MaxScalar, MaxPair
VARIABLES items, dims
Probes1 == {<<k>> : k \in (SetMin(ScalarKeys) - 1)..(SetMax(ScalarKeys) + 1)}
Probes2 == {<<a, b>> : a \in (SetMin(PairI) - 1)..(SetMax(PairI) + 1), b \in (SetMin(PairJ) - 1)..(SetMax(PairJ) + 1)}
Init == items = <<>> /\ dims \in {1, 2}
Add == /\ Len(items) < (IF dims = 1 THEN MaxScalar ELSE MaxPair)
       /\ \E v \in Vals, key \in (IF dims = 1 THEN {<<k>> : k \in ScalarKeys} ELSE PairI \X PairJ) :
            items' = Append(items, [key |-> key, value |-> v])
       /\ UNCHANGED dims
Next == Add
Indistinguishable == Faithful(items, IF dims = 1 THEN Probes1 ELSE Probes2)

(* scenario generation: one line of JSON per reached builder history *)
Dump == Emit([items |-> items])
=============================================================================

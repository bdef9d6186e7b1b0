------------------------------ MODULE SurveyMC -------------------------------
(* The closed forms of Survey are those of the mapping of the items, for every small survey. *)
EXTENDS Catalog, Survey
CONSTANTS MaxI, MaxJ, Steps, ValueSteps
VS == {0 - 2, 0, 1, 3}
VARIABLE p
Coprime(a, m) == \E b \in 1..m : (a * b) % m = 1 % m
Init == \E sh \in {"line", "rows", "cols"}, ni \in 1..MaxI, nj \in 1..MaxJ, di \in Steps, dj \in Steps, dv \in ValueSteps, mult \in 1..(MaxI * MaxJ), hole \in -1..(MaxI * MaxJ - 1) :
          /\ sh = "line" => nj = 1
          /\ mult <= ni * nj /\ hole < ni * nj /\ Coprime(mult, ni * nj)
          /\ p = [shape |-> sh, i0 |-> 3, di |-> di, ni |-> ni, j0 |-> 5, dj |-> dj, nj |-> nj, v0 |-> 7, dv |-> dv, mult |-> mult,
                  inv |-> CHOOSE b \in 1..(ni * nj) : (mult * b) % (ni * nj) = 1 % (ni * nj), hole |-> hole]
Next == FALSE /\ UNCHANGED p
Members == {n \in 0..(Total(p) - 1) : n # p.hole}
RECURSIVE ItemsFrom(_)
ItemsFrom(n) == IF n = Total(p) THEN <<>>
                ELSE (IF n = p.hole THEN <<>> ELSE <<[key |-> KeyOf(p, n), value |-> ValueOf(p, n)]>>) \o ItemsFrom(n + 1)
Agrees ==
  LET items == ItemsFrom(0)
      map == MappingOf(items)
      probes == IF p.shape = "line" THEN {<<k>> : k \in 2..(4 + p.di * p.ni)} ELSE {<<a, b>> : a \in 2..(4 + p.di * p.ni), b \in 4..(6 + p.dj * p.nj)}
  IN /\ Sound(p) /\ Len(items) = Len0(p) /\ ~HasRepeatedKey(items) /\ InKeyOrder([n \in 1..Len(items) |-> items[n].key])
     /\ \A key \in probes : LET n == ItemOf(p, key) IN IF key \in DOMAIN map THEN n \in Members /\ KeyOf(p, n) = key /\ map[key] = ValueOf(p, n) ELSE n = -1
     /\ p.dv # 0 => \A v \in 0..(8 + Total(p) * 2) : LET n == ItemWith(p, v) IN IF KeysWithValue(map, v) = {} THEN n = -1 ELSE KeysWithValue(map, v) = {KeyOf(p, n)}
     /\ p.shape # "line" /\ (p.hole < 0 \/ (p.ni > 1 /\ p.nj > 1)) => AxisI(p) = AscSeq(Axis(map, 1)) /\ AxisJ(p) = AscSeq(Axis(map, 2))
     /\ p.shape # "line" /\ Len(items) > 0 /\ (p.hole < 0 \/ (p.ni > 1 /\ p.nj > 1)) =>
          KeyMin(map) = KeyOf(p, 0) /\ KeyMax(map) = KeyOf(p, Total(p) - 1)
     (* and the representation chosen for such a survey answers as the mapping does *)
     /\ Faithful(items, probes)
=============================================================================

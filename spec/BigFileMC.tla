------------------------------ MODULE BigFileMC -----------------------------
(* The arithmetic of BigFile is that of the integers, and its positions are those of traces laid
   one after the other, for every small file (a base of 3 makes carries happen everywhere). *)
EXTENDS BigFile
CONSTANTS MaxRuns, MaxCount, MaxLen, Width, Start
VARIABLES runs, t, at, seen
vars == <<runs, t, at, seen>>
Value(p) == p[1] * Base + p[2]
Run == [count : 1..MaxCount, len : 0..MaxLen]
Init == /\ runs \in UNION {[1..n -> Run] : n \in 0..MaxRuns} /\ t = 0 /\ at = Start /\ seen = 0
(* walks from trace to trace, as a scan does, in plain integers *)
Step == /\ t < NumTraces(runs) /\ t' = t + 1
        /\ at' = at + HeadLen + Width * LenOf(runs, t)
        /\ seen' = IF LenOf(runs, t) > seen THEN LenOf(runs, t) ELSE seen
        /\ UNCHANGED runs
Next == Step
Spec == Init /\ [][Next]_vars
Positions == LET p == PosFrom(runs, Width, Big(Start), t) IN Value(p) = at /\ p[2] \in 0..(Base - 1)
LongestIsSeen == t = NumTraces(runs) => seen = Longest(runs)
Arithmetic == \A x \in 0..12, y \in 0..12 : Value(Times(x, y)) = x * y /\ Value(Plus(Big(x), Big(y))) = x + y
=============================================================================

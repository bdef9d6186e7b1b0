----------------------------- MODULE DelegateMC ------------------------------
(* C21: chains of datasets which delegate to one another, with any aspects
   overridden on any level.  What the end of the chain exposes is, aspect by
   aspect, what the nearest level which overrides it says, and otherwise what the
   first dataset exposes. *)
EXTENDS Delegate, Scenario, FiniteSets
SmallSamples == {<<>>, <<7>>, <<8, 9, 8>>}
CONSTANTS Samples, MaxDepth, MaxAspects
VARIABLES chain, view, src
vars == <<chain, view, src>>
Source(kind) == Exposure([text |-> 0, bin |-> 0, ext |-> 0, traces |-> <<[h |-> 0, s |-> <<0>>], [h |-> 1, s |-> <<1, 1>>]>>],
                         IF kind = "reader" THEN "e" ELSE "none", IF kind = "reader" THEN ">" ELSE "none", 0, kind = "reader")
(* values of the overrides on a level: told apart by the level *)
Value(a, level, t, ix, smp) == CASE a \in {"text", "bin", "ext", "enc", "endian", "dim"} -> <<level>>
                                 [] a = "num" -> <<t + 1>>
                                 [] a = "indexes" -> <<ix>>
                                 [] a = "headers" -> <<[t |-> t, v |-> level]>>
                                 [] OTHER -> <<[t |-> t, v |-> smp]>>
Choices(as, a, set) == IF a \in as THEN set ELSE {<<>>}
Init == chain = <<>> /\ src \in {"ds", "reader"} /\ view = Source(src)
Add == /\ Len(chain) < MaxDepth
       /\ \E as \in {x \in SUBSET Aspects : Cardinality(x) <= MaxAspects}, t \in 0..1 :
            \E ix \in Choices(as, "indexes", {<<t>>, <<1, 0>>, <<>>}), smp \in Choices(as, "samples", Samples) :
               LET whole == [a \in Aspects |-> IF a \in as THEN Value(a, Len(chain) + 1, t, ix, smp) ELSE <<>>]
               IN chain' = Append(chain, whole) /\ view' = Derive(view, whole) /\ UNCHANGED src
Next == Add
Spec == Init /\ [][Next]_vars
(* the nearest level which overrides aspect a (of trace t) *)
Levels(a) == {k \in 1..Len(chain) : chain[k][a] # <<>>}
LevelsOf(a, t) == {k \in 1..Len(chain) : Replaced(chain[k][a], t)}
Nearest(ks) == CHOOSE k \in ks : \A j \in ks : j <= k
NearestWins == /\ \A a \in Aspects \ {"headers", "samples"} :
                    view[a] = IF Levels(a) = {} THEN Source(src)[a] ELSE chain[Nearest(Levels(a))][a][1]
               /\ \A t \in 0..1 : view.traces[t + 1].h = IF LevelsOf("headers", t) = {} THEN Source(src).traces[t + 1].h
                                                         ELSE Replacement(chain[Nearest(LevelsOf("headers", t))].headers, t)
               /\ \A t \in 0..1 : view.traces[t + 1].s = IF LevelsOf("samples", t) = {} THEN Source(src).traces[t + 1].s
                                                         ELSE Replacement(chain[Nearest(LevelsOf("samples", t))].samples, t)
(* a chain is as good as one dataset which overrides all of it *)
RECURSIVE Whole(_)
Whole(c) == IF c = <<>> THEN None ELSE Over(Whole(SubSeq(c, 1, Len(c) - 1)), c[Len(c)])
ChainsCollapse == view = Derive(Source(src), Whole(chain))
EmptyIsTransparent == Derive(view, None) = view
(* what is written depends on nothing but what is exposed of the traces there are *)
WrittenIsExposed == LET w == Written(view) IN /\ Len(w.traces) = Len(view.indexes)
                                              /\ \A k \in 1..Len(w.traces) : w.traces[k].s = PartOutcome(view.traces[view.indexes[k] + 1], <<>>, <<>>).v
(* parts of a trace agree with the whole of it; a refused part of a strict trace is one which is not there *)
Parts == \A t \in 1..2, a \in -3..3, b \in -3..3 :
            LET tr == view.traces[t]
                o == PartOutcome(tr, <<a>>, <<b>>)
            IN /\ 0 <= a /\ a <= b /\ b <= Len(tr.s) => o.k = "ok" /\ o.v = SubSeq(tr.s, a + 1, b)
               /\ o.k = "error" => tr.strict /\ ~(0 <= a /\ a <= b /\ b <= Len(tr.s))
               /\ tr.strict /\ o.k = "ok" => Len(o.v) = b - a
(* every chain on the way is a session for the driver *)
Finish == /\ Len(chain) > 0 /\ src # "done"
          /\ Emit([src |-> src, levels |-> [k \in 1..Len(chain) |-> [a \in Aspects |-> chain[k][a] # <<>>]]])
          /\ src' = "done" /\ UNCHANGED <<chain, view>>
GenNext == (src # "done" /\ Add) \/ Finish
=============================================================================

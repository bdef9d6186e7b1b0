------------------------------ MODULE CacheMC --------------------------------
(* Model checking of Cache, and generation of histories of operations to replay on the code. *)
EXTENDS Cache, Scenario
CONSTANTS MaxOps
VARIABLES hist, turn
gvars == <<fs, cache, saving, last, hist>>
PathId(p) == <<p.d, p.n>>
Op(name, args) == hist' = Append(hist, [op |-> name] @@ args)
(* no history in the model checking *)
MInit == CInit /\ hist = <<>> /\ turn = "none"
MNext == CNext /\ UNCHANGED <<hist, turn>>
(* generation: first the kind of step is chosen so that opens are frequent *)
GInit == /\ fs \in [Paths -> Contents \cup {Nil}] /\ (\E p \in Paths : fs[p] # Nil)
         /\ cache = [l \in Locations |-> [k \in Keys |-> Nil]] /\ saving = NoSave /\ last = [k |-> "none"]
         /\ hist = << [op |-> "start", fs |-> {<<p.d, p.n, fs[p]>> : p \in {o \in Paths : fs[o] # Nil}}] >>
GOpen == \E p \in Paths, q \in Params, m \in Dims, w \in Wheres :
           \/ Open(p, q, m, w) /\ Op("open", [p |-> PathId(p), q |-> q, m |-> m, w |-> w])
           \/ OpenSlowly(p, q, m, w) /\ Op("slow", [p |-> PathId(p), q |-> q, m |-> m, w |-> w])
(* opening again something which was opened already: the case where an entry is found *)
Again == \E k \in 2..Len(hist) : /\ hist[k].op \in {"open", "slow"}
            /\ \E p \in Paths : /\ fs[p] # Nil
                                /\ LET h == hist[k] IN \E m \in {h.m, CHOOSE x \in Dims : TRUE} : Open(p, h.q, m, h.w) /\ Op("open", [p |-> PathId(p), q |-> h.q, m |-> m, w |-> h.w])
GFinish == \/ FinishSave /\ Op("finish", <<>>)
           \/ Crash /\ Op("crash", <<>>)
GFiles == \/ \E p \in Paths : \/ Delete(p) /\ Op("delete", [p |-> PathId(p)])
                              \/ \E c \in Contents : Edit(p, c) /\ Op("edit", [p |-> PathId(p), c |-> c])
                              \/ \E o \in Paths : \/ Copy(p, o) /\ Op("copy", [p |-> PathId(p), o |-> PathId(o)])
                                                  \/ Move(p, o) /\ Op("move", [p |-> PathId(p), o |-> PathId(o)])
          \/ \E a, b \in Dirs : SwapDirs(a, b) /\ Op("swap", [a |-> a, b |-> b])
GTamper == \E l \in Locations, k \in Keys, e \in {Nil, Damaged, Foreign} :
              Tamper(l, k, e) /\ Op("tamper", [l |-> l, c |-> k.content, q |-> k.param, e |-> e])

Turns == {"open", "open2", "again", "again2", "again3", "finish", "files", "files2", "tamper"}
GenInit == GInit /\ turn = "open"
Do(t) == CASE t \in {"open", "open2"} -> GOpen [] t \in {"again", "again2", "again3"} -> Again [] t = "finish" -> GFinish
           [] t \in {"files", "files2"} -> GFiles [] t = "tamper" -> GTamper
(* a turn that cannot be taken passes *)
GenNext == \/ turn = "choose" /\ Len(hist) <= MaxOps /\ turn' \in Turns /\ UNCHANGED gvars
           \/ turn \in Turns /\ turn' = "choose" /\ (Do(turn) \/ (turn # "open" /\ UNCHANGED gvars /\ ~ENABLED Do(turn)))
           \/ turn = "choose" /\ Len(hist) > MaxOps /\ turn' = "stopped" /\ UNCHANGED gvars
Histories == turn = "stopped" => Emit([ops |-> hist])
=============================================================================

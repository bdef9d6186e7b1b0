------------------------------ MODULE PickleMC -------------------------------
(* C11: every life of a few readers and pickles.  Beside the world, the content of what each reader
   was opened on is kept (there is one file, so content is the identity of the reader it descends
   from), to see that whatever is restored descends from a reader which could be pickled and
   is restored by the same version from a file which is there. *)
EXTENDS Pickle, Scenario, Naturals
CONSTANTS Places, Cwds, Readers, Blobs, MaxOps
VARIABLES w, hist, last
vars == <<w, hist, last>>
View == <<w, last>>
Init == w = World("a", "home") /\ hist = <<>> /\ last = [k |-> "none"]
Rs == DOMAIN w.readers
Bs == DOMAIN w.blobs
Do(op) == hist' = Append(hist, op)
Open(r, face) == w.at # "gone" /\ (face = "relative" => w.cwd = "home") /\ w' = Opened(w, r, face) /\ last' = [k |-> "done"] /\ Do(<<"open", r, face>>)
Use(r) == last' = [k |-> IF ReadSucceeds(w, r) THEN "data" ELSE "failed"] /\ UNCHANGED w /\ Do(<<"use", r>>)
Close(r) == w.readers[r].open /\ w' = Closed(w, r) /\ last' = [k |-> "done"] /\ Do(<<"close", r>>)
Dump(r, b, v) == /\ Do(<<"dump", r, b, v>>)
                 /\ IF DumpErrors(w, r) = {} THEN w' = Dumped(w, r, b, v) /\ last' = [k |-> "dumped", from |-> w.readers[r]]
                    ELSE w' = w /\ (\E e \in DumpErrors(w, r) : last' = [k |-> "refused", e |-> e, why |-> w.readers[r]])
Load(b, r) == /\ Do(<<"load", b, r>>)
              /\ \/ LoadMaySucceed(w, b) /\ w' = Loaded(w, b, r) /\ last' = [k |-> "loaded", blob |-> w.blobs[b], at |-> w.at]
                 \/ ~Reachable(w, b) /\ w' = w /\ \E e \in LoadErrors(w, b) : last' = [k |-> "refused", e |-> e, why |-> w.blobs[b]]
Move(p) == p # w.at /\ w' = Moved(w, p) /\ last' = [k |-> "done"] /\ Do(<<"move", p>>)
Go(c) == c # w.cwd /\ w' = Went(w, c) /\ last' = [k |-> "done"] /\ Do(<<"go", c>>)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E r \in Readers, f \in Faces : Open(r, f)
           \/ \E r \in Rs : Use(r) \/ Close(r) \/ \E b \in Blobs, v \in {"this", "other"} : Dump(r, b, v)
           \/ \E b \in Bs, r \in Readers : Load(b, r)
           \/ \E p \in Places \cup {"gone"} : Move(p)
           \/ \E c \in Cwds : Go(c)
Spec == Init /\ [][Next]_vars
OnlyNamedArePickled == \A b \in Bs : w.blobs[b].face \in Named
RestoredIsReachable == last.k = "loaded" => last.blob.version = "this" /\ last.blob.place = last.at
RefusedForAReason == last.k = "refused" => \/ last.why.face \notin Named
                                           \/ "open" \in DOMAIN last.why /\ ~last.why.open
                                           \/ "version" \in DOMAIN last.why /\ (last.why.version = "other" \/ last.why.place # w.at \/ last.why.cwd # w.cwd)
(* nothing that happens to the file or to other readers and pickles closes a reader, so it can be read as before *)
OpenStaysOpen == [][\A r \in Rs : w.readers[r].open => r \in DOMAIN w'.readers /\ (w'.readers[r].open \/ w' = Closed(w, r))]_vars
(* pickling and refused operations change nothing else *)
DumpOnlyAddsABlob == [][last'.k \in {"dumped", "refused"} => w' = [w EXCEPT !.blobs = w'.blobs]]_vars
(* histories for the driver *)
Finish == /\ Len(hist) = MaxOps /\ last # [k |-> "finished"] /\ Emit([ops |-> hist])
          /\ last' = [k |-> "finished"] /\ UNCHANGED <<w, hist>>
GenNext == Next \/ Finish
=============================================================================

------------------------------- MODULE Pickle --------------------------------
(* C11: the lives of readers.  A data file has a place and may be moved or be absent; readers
   are opened on it by name (absolute or relative to the current directory), through a
   descriptor without a name, or on a copy in memory; they are used, closed, pickled and
   restored, possibly by another version of the library, from another directory, or when
   the file is elsewhere.  A world is

     [at |-> where the file is ("gone": at none of the places), cwd |-> the current directory,
      readers |-> id -> [face, place, open], blobs |-> id -> [face, place, cwd, version]]

   face: "absolute", "relative" (the name given to open), "descriptor" or "memory".  *)
EXTENDS TLC, Sequences, FiniteSets
Named == {"absolute", "relative"}
Faces == Named \cup {"descriptor", "memory"}
World(at, cwd) == [at |-> at, cwd |-> cwd, readers |-> <<>>, blobs |-> <<>>]
Upd(f, key, value) == (key :> value) @@ f

(* which errors an operation may end in; {} when it must succeed *)
DumpErrors(w, r) == IF w.readers[r].open /\ w.readers[r].face \in Named THEN {} ELSE {"TypeError"}
(* A relative name is looked up from the current directory; making it absolute when pickling
   would be as good, so away from home restoring may fail or succeed. *)
Reachable(w, b) == LET x == w.blobs[b] IN x.version = "this" /\ x.place = w.at /\ (x.face = "absolute" \/ x.cwd = w.cwd)
MaybeReachable(w, b) == LET x == w.blobs[b] IN x.version = "this" /\ x.place = w.at /\ x.face = "relative" /\ x.cwd # w.cwd
LoadErrors(w, b) == IF Reachable(w, b) THEN {} ELSE {"TypeError"}
LoadMaySucceed(w, b) == Reachable(w, b) \/ MaybeReachable(w, b)
(* reading needs nothing but the file object, which stays with the file when it is moved or unlinked *)
ReadSucceeds(w, r) == w.readers[r].open

Opened(w, r, face) == [w EXCEPT !.readers = Upd(@, r, [face |-> face, place |-> w.at, cwd |-> w.cwd, open |-> TRUE])]
Closed(w, r) == [w EXCEPT !.readers[r].open = FALSE]
(* a restored reader which is pickled again keeps the name it has *)
Dumped(w, r, b, version) == [w EXCEPT !.blobs = Upd(@, b, [face |-> w.readers[r].face, place |-> w.readers[r].place, cwd |-> w.readers[r].cwd, version |-> version])]
Loaded(w, b, r) == [w EXCEPT !.readers = Upd(@, r, [face |-> w.blobs[b].face, place |-> w.blobs[b].place, cwd |-> w.blobs[b].cwd, open |-> TRUE])]
Moved(w, to) == [w EXCEPT !.at = to]
Went(w, to) == [w EXCEPT !.cwd = to]
=============================================================================

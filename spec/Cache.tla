-------------------------------- MODULE Cache ---------------------------------
(* C10.  The cache of readers: files which come, change and go, entries under the directory
   of a file or in a directory shared by all files, entries which are damaged, replaced or
   only half written, and opens with various parameters.

   A path is [d |-> directory, n |-> name]; fs gives the content of a path, Nil when there is no
   file.  cache gives the entry at a location under a key:
     Nil, Damaged (no pickle which can be restored), Foreign (the pickle of something else),
     or the reader saved there [path, content, param, dim].
   The key of an entry is computed from the content and the parameters.  KeyHasDim tells
   whether the dimensionality is one of them (in the code it is not, which is a known finding). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Dirs, Names, Contents, Params, Dims, Wheres, KeyHasDim, Nil, Damaged, Foreign
VARIABLES fs, cache, saving, last
cvars == <<fs, cache, saving, last>>
Paths == [d : Dirs, n : Names]

Locations == Dirs \cup {"shared"}
Keys == [content : Contents, param : Params, dim : IF KeyHasDim THEN Dims ELSE {Nil}]
KeyOf(c, q, m) == [content |-> c, param |-> q, dim |-> IF KeyHasDim THEN m ELSE Nil]
LocationOf(p, w) == IF w = "own" THEN p.d ELSE "shared"
Readers == [path : Paths, content : Contents, param : Params, dim : Dims]
IsReader(e) == e \notin {Nil, Damaged, Foreign}
NoSave == [l |-> Nil]
CInit == fs \in [Paths -> Contents \cup {Nil}] /\ cache = [l \in Locations |-> [k \in Keys |-> Nil]] /\ saving = NoSave /\ last = [k |-> "none"]
Reader(p, c, q, m) == [path |-> p, content |-> c, param |-> q, dim |-> m]
(* The reader which the caller gets reads from the file which was passed, whatever file the
   entry was made from: from is the path it reads from. *)
Got(p, e) == [k |-> "reader", from |-> p, content |-> e.content, param |-> e.param, dim |-> e.dim, asked |-> Nil]
Open(p, q, m, w) ==
  LET c == fs[p]
      fresh == Reader(p, c, q, m)
      Report(e) == last' = [Got(p, e) EXCEPT !.asked = m] @@ [param_asked |-> q]
  IN /\ c # Nil
     /\ IF w \in {"none", "unusable"} THEN Report(fresh) /\ UNCHANGED cache
        ELSE LET l == LocationOf(p, w) k == KeyOf(c, q, m) e == cache[l][k]
             IN \* an entry can only be restored when there is a file, any file, where its own one was
                IF IsReader(e) /\ fs[e.path] # Nil THEN Report(e) /\ UNCHANGED cache
                ELSE IF e = Foreign THEN last' = [k |-> "refused", l |-> l, key |-> k] /\ UNCHANGED cache
                ELSE Report(fresh) /\ cache' = [cache EXCEPT ![l][k] = fresh]
     /\ UNCHANGED <<fs, saving>>
(* The same, in a process which is interrupted or delayed while it writes the entry. *)
OpenSlowly(p, q, m, w) ==
  LET c == fs[p] l == LocationOf(p, w) k == KeyOf(c, q, m)
  IN /\ saving = NoSave /\ c # Nil /\ w \in {"own", "shared"}
     /\ cache[l][k] \in {Nil, Damaged}
     /\ cache' = [cache EXCEPT ![l][k] = Damaged]
     /\ saving' = [l |-> l, key |-> k, e |-> Reader(p, c, q, m)]
     /\ last' = [Got(p, Reader(p, c, q, m)) EXCEPT !.asked = m] @@ [param_asked |-> q]
     /\ UNCHANGED fs
FinishSave == saving # NoSave /\ saving' = NoSave /\ last' = [k |-> "none"] /\ UNCHANGED fs
              \* when somebody removed the half written entry, what is written goes nowhere
              /\ cache' = IF cache[saving.l][saving.key] = Damaged THEN [cache EXCEPT ![saving.l][saving.key] = saving.e] ELSE cache
Crash == saving # NoSave /\ saving' = NoSave /\ last' = [k |-> "none"] /\ UNCHANGED <<fs, cache>>
(* what users do to the files *)
Edit(p, c) == fs[p] # c /\ fs' = [fs EXCEPT ![p] = c] /\ last' = [k |-> "none"] /\ UNCHANGED <<cache, saving>>
Delete(p) == fs[p] # Nil /\ fs' = [fs EXCEPT ![p] = Nil] /\ last' = [k |-> "none"] /\ UNCHANGED <<cache, saving>>
Copy(p, o) == p # o /\ fs[p] # Nil /\ fs' = [fs EXCEPT ![o] = fs[p]] /\ last' = [k |-> "none"] /\ UNCHANGED <<cache, saving>>
Move(p, o) == p # o /\ fs[p] # Nil /\ fs' = [fs EXCEPT ![o] = fs[p], ![p] = Nil] /\ last' = [k |-> "none"] /\ UNCHANGED <<cache, saving>>
(* two directories are exchanged, together with the entries in them *)
SwapDirs(a, b) ==
  LET Other(d) == IF d = a THEN b ELSE IF d = b THEN a ELSE d
  IN /\ a # b /\ saving = NoSave
     /\ fs' = [p \in Paths |-> fs[[p EXCEPT !.d = Other(@)]]]
     /\ cache' = [l \in Locations |-> cache[IF l \in Dirs THEN Other(l) ELSE l]]
     /\ last' = [k |-> "none"] /\ UNCHANGED saving
(* what happens to entries *)
Tamper(l, k, e) == /\ cache[l][k] # Nil /\ cache[l][k] # e /\ e \in {Nil, Damaged, Foreign}
                   /\ saving = NoSave
                   /\ cache' = [cache EXCEPT ![l][k] = e] /\ last' = [k |-> "none"] /\ UNCHANGED <<fs, saving>>
CNext == \/ \E p \in Paths, q \in Params, m \in Dims, w \in Wheres : Open(p, q, m, w) \/ OpenSlowly(p, q, m, w)
         \/ FinishSave \/ Crash
         \/ \E p \in Paths : Delete(p) \/ (\E c \in Contents : Edit(p, c)) \/ \E o \in Paths : Copy(p, o) \/ Move(p, o)
         \/ \E a, b \in Dirs : SwapDirs(a, b)
         \/ \E l \in Locations, k \in Keys, e \in {Nil, Damaged, Foreign} : Tamper(l, k, e)

(* An opened file gives what a fresh scan of that very file with those very parameters gives. *)
Fresh == last.k = "reader" => /\ last.content = fs[last.from] /\ last.param = last.param_asked
FreshDim == last.k = "reader" => last.dim = last.asked
RefusedOnlyForeign == last.k = "refused" => cache[last.l][last.key] = Foreign
(* why: entries are what their keys say *)
EntriesMatch == \A l \in Locations, k \in Keys : LET e == cache[l][k] IN
                   IsReader(e) => e.content = k.content /\ e.param = k.param /\ (KeyHasDim => e.dim = k.dim)
FilesUntouched == [][last'.k \in {"reader", "refused"} => fs' = fs]_cvars
OnlyTheEntry == [][last'.k = "reader" => Cardinality({<<l, k>> \in Locations \X Keys : cache'[l][k] # cache[l][k]}) <= 1]_cvars
=============================================================================

--------------------------------- MODULE Cli ---------------------------------
(* What the commands of segpy/cli.py print about a file, as a function of what a
   reader presents of it (the views of SegyFormat). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS TypeNames,      \* function from data sample format codes to the names of the types
          Descriptions    \* and to their descriptions

Largest(seq) == IF Len(seq) = 0 THEN 0 ELSE CHOOSE m \in {seq[k] : k \in 1..Len(seq)} : \A j \in 1..Len(seq) : seq[j] <= m
TraceCount(v) == Len(v.offs)
Dimensions(v) == IF v.kind \in {2, 3} THEN v.kind ELSE IF TraceCount(v) = 1 THEN 1 ELSE 0
Metadata(v) == [num_traces |-> TraceCount(v), dimensionality |-> Dimensions(v), data_sample_format |-> TypeNames[v.code],
                max_num_trace_samples |-> Largest(v.lens)]

(* the index of a survey has its keys when they are distinct, and none otherwise *)
Unique(keys) == Cardinality({keys[k] : k \in 1..Len(keys)}) = Len(keys)
Lines(v, a) == IF Unique(v.lines) THEN {v.lines[k][a] : k \in 1..Len(v.lines)} ELSE {}
Cdps(v) == IF Unique(v.cdps) THEN {v.cdps[k] : k \in 1..Len(v.cdps)} ELSE {}
Facts(v, revision) ==
  {<<"SEG Y revision", ToString(revision)>>, <<"Number of traces", ToString(TraceCount(v))>>,
   <<"Data format", Descriptions[v.code]>>, <<"Dimensionality", ToString(Dimensions(v))>>}
  \cup (IF v.kind = 2 THEN {<<"Number of CDPs", ToString(Cardinality(Cdps(v)))>>} ELSE {})
  \cup (IF v.kind = 3 THEN {<<"Number of inlines", ToString(Cardinality(Lines(v, 1)))>>,
                            <<"Number of crosslines", ToString(Cardinality(Lines(v, 2)))>>} ELSE {})
(* the cards without their first three characters, one per line *)
Newline == 10
RECURSIVE PrintedText(_)
PrintedText(lines) == IF lines = <<>> THEN <<>> ELSE SubSeq(lines[1], 4, Len(lines[1])) \o <<Newline>> \o PrintedText(Tail(lines))
=============================================================================

------------------------------- MODULE Refusal -------------------------------
(* C18: what is wrong with the arguments of an operation, what it is refused with,
   and what it may have done before it is refused. *)
EXTENDS Integers, Sequences, FiniteSets
OpenReasons == {"closed", "text_mode", "unseekable", "short", "endian", "dimensionality", "progress"}
\* a file object has one of these faults at most; a closed one or one in text mode has no length to speak of
FileFaults == {"closed", "text_mode", "unseekable"}
WriteReasons == {"encoding", "progress", "text", "ext_text", "shape", "mismatch"}
EarlyReasons == {"encoding", "progress"}
RefusalOf(reason) ==
  CASE reason \in {"text_mode", "unseekable", "progress"} -> {"TypeError"}
    [] reason \in {"closed", "short", "endian", "dimensionality"} -> {"ValueError"}
    [] reason = "encoding" -> {"UnsupportedEncodingError"}
    [] reason \in {"text", "ext_text"} -> {"UnicodeError"}
    [] reason = "shape" -> {"ValueError"}
    [] reason = "mismatch" -> {"TypeError"}
(* any of the reasons may be the one which is found first *)
Refusals(reasons) == UNION {RefusalOf(x) : x \in reasons}
(* pieces of a file in the order in which they are written, and what may be wrong with each *)
PieceOf(reason) == CASE reason = "text" -> 1 [] reason \in {"ext_text", "shape"} -> 3 [] OTHER -> 4
=============================================================================

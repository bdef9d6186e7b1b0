------------------------------- MODULE SegyReal ------------------------------
(* The real sizes and tables. *)
EXTENDS SegyTables, TLC
RealStop == <<40, 40, 83, 69, 71, 58, 32, 69, 110, 100, 84, 101, 120, 116, 41, 41>>  \* ((SEG: EndText))
RealWidths == (1 :> 4) @@ (2 :> 4) @@ (3 :> 2) @@ (5 :> 4) @@ (8 :> 1)
=============================================================================

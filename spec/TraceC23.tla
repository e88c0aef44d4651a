------------------------------ MODULE TraceC23 ------------------------------
(* C23: everything stays on its precision.                                      *)
EXTENDS PlacementJudge
=============================================================================

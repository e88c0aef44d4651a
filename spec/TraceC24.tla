------------------------------ MODULE TraceC24 ------------------------------
(* C24: everything stays on its device.                                         *)
EXTENDS PlacementJudge
=============================================================================

----------------------------- MODULE ModelStore -----------------------------
(* Models, grids given by the user and saved states, as cells of a heap.      *)
(* A store maps names to values.  Every operation has one target; what it     *)
(* gives to the target depends on the values of other names, but all other    *)
(* names keep theirs: nothing is shared.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names(st) == DOMAIN st
Others(st, n) == DOMAIN st \ {n}
\* What the target has in common with its source after the operation: everything ("all"), the
\* function it computes, or nothing.
Gives(op) == CASE op \in {"load", "copy", "pickle"} -> "all"
               [] op = "save" -> "value"
               [] OTHER -> "nothing"
=============================================================================

------------------------------- MODULE Calls -------------------------------
(* A layer as a pure function.  What one sample gives in the output channels  *)
(* of one channel group depends on the contents of that sample in the input   *)
(* channels of that group, the elements of the grids, and the parameters of   *)
(* that group - and on nothing else: not on the position in the batch, on the *)
(* other samples, on other channel groups, or on earlier calls.              *)
(* A memo records what has been seen; whatever is seen again must agree.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* key: [layer, group, params, ins, ino, outs]
Key(layer, grp, params, ins, ino, outs) == [layer |-> layer, group |-> grp, params |-> params, ins |-> ins, ino |-> ino, outs |-> outs]
Known(memo, k) == k \in DOMAIN memo
Learn(memo, k, y) == IF Known(memo, k) THEN memo ELSE memo @@ (k :> y)
=============================================================================

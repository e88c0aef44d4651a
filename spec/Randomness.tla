----------------------------- MODULE Randomness -----------------------------
(* Operations of three kinds on one generator: fixed ones neither read nor   *)
(* move it, random ones read it and move it on, and for those of kind "any"  *)
(* only what holds for all is said: what comes out is a function of the      *)
(* operation and of the state of the generator before.                       *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"fixed", "random", "any"}
\* a log is a sequence of [op, kind, pre, post, result]
Repeatable(log, same(_, _)) ==
  \A i, j \in 1..Len(log) : (log[i].op = log[j].op /\ (log[i].pre = log[j].pre \/ log[i].kind = "fixed"))
                              => same(log[i].result, log[j].result) /\ (log[i].pre = log[j].pre => log[i].post = log[j].post)
Contained(log) == \A i \in 1..Len(log) : log[i].kind = "fixed" => log[i].post = log[i].pre
Moves(log) == \A i \in 1..Len(log) : log[i].kind = "random" => log[i].post # log[i].pre
\* different states stay different, and show in what comes out
Fresh(log, same(_, _)) ==
  \A i, j \in 1..Len(log) : (log[i].op = log[j].op /\ log[i].kind = "random" /\ log[i].pre # log[j].pre)
                              => ~same(log[i].result, log[j].result) /\ log[i].post # log[j].post
=============================================================================

---------------------------- MODULE CustomGroup -----------------------------
(* Kernels of groups whose operations are supplied by the user.               *)
(*                                                                           *)
(* The kernel for output element o and input element i is determined by the   *)
(* operations inv, mul, act, sampleH, sampleRn and det alone:                 *)
(*   group part        sampleH(mul(inv(o), i), weights, reference elements)    *)
(*   spatial part      sampleRn(weights, act(inv(o), reference positions))     *)
(*                     times mask, divided by det(o)                          *)
(* Lifting kernels have the spatial part only, subgroup kernels the group part *)
(* only, separable kernels return both, and full kernels feed the group part   *)
(* to the spatial part.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Forms == {"lift", "sep", "full", "sub"}
HasGroup(f) == f # "lift"
HasSpace(f) == f # "sub"

(* Symbolic evaluation.  Terms are tuples; shapes are kept next to them.      *)
(* A call is <<operation, shapes of its arguments, in order>>.               *)
\* N outputs, M inputs, R reference elements, elements of shape dims, spatial size ks, D coordinates.
CallOk(c, dims, R, ks, D) ==
  LET el(s) == Len(s) >= 1 /\ Tail(s) = dims
      a(i) == c[2][i]
  IN CASE c[1] = "inv" -> Len(c[2]) = 1 /\ el(a(1))
       [] c[1] = "det" -> Len(c[2]) = 1 /\ el(a(1))
       [] c[1] = "mul" -> Len(c[2]) = 2 /\ el(a(1)) /\ el(a(2))
       [] c[1] = "act" -> Len(c[2]) = 2 /\ el(a(1)) /\ a(2) # <<>> /\ a(2)[Len(a(2))] = D
       \* elements to sample at, signal (R, S), elements it is given at (R, *dims)
       [] c[1] = "sampleH" -> Len(c[2]) = 3 /\ el(a(1)) /\ Len(a(2)) = 2 /\ a(2)[1] = R /\ a(3) = <<R>> \o dims
       \* a batch of multi-channel kernels (B, C, *ks) and their positions (B, *ks, D)
       [] c[1] = "sampleRn" -> /\ Len(c[2]) = 2 /\ Len(a(1)) = Len(ks) + 2 /\ SubSeq(a(1), 3, Len(a(1))) = ks
                               /\ a(2) = <<a(1)[1]>> \o ks \o <<D>>
       [] OTHER -> FALSE
=============================================================================

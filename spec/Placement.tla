----------------------------- MODULE Placement -----------------------------
(* Where numbers live (a device) and how finely they are kept (a precision,  *)
(* in bits).                                                                 *)
EXTENDS Integers, FiniteSets, Sequences

Place(d, p) == [dev |-> d, prec |-> p]
Finest(ps) == CHOOSE p \in {x.prec : x \in ps} : \A x \in ps : x.prec <= p
OneDevice(ps) == Cardinality({x.dev : x \in ps}) <= 1
\* entry by entry, precisions may differ and the finer one wins; products of
\* matrices, convolutions and the like want one precision
CanPointwise(ps) == OneDevice(ps)
CanProduct(ps) == Cardinality(ps) <= 1
Result(ps) == Place(CHOOSE d \in {x.dev : x \in ps} : TRUE, Finest(ps))

\* What a random element must be, given the default precision, the device the
\* input is on, and the elements it is combined with, by policy:
\*   "default"  made where and as the library makes anything
\*   "device"   made where the input is
\*   "like"     made where the input is and as the elements it meets
RandomPlace(policy, default, input, grid) ==
  Place(IF policy = "default" THEN "cpu" ELSE input.dev, IF policy = "like" THEN grid.prec ELSE default)
=============================================================================

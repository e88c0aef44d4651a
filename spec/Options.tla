------------------------------- MODULE Options -------------------------------
(* What the constructor options of a layer mean, which are rejected, and what *)
(* is done when one is left out.                                              *)
(*                                                                           *)
(* An option record o (fields left out: <<>> or "")                           *)
(*   refl, k, dim     the group has reflections; kernel size and dimensions   *)
(*   in, out, groups  channels and channel groups (groups: a sequence)        *)
(*   gsize            group kernel size: <<n>> for a number, <<n, m>> a pair  *)
(*   grid             rotations and reflections in the provided grid          *)
(*   stride, dil      one number, or one per axis (the last one repeated)     *)
(*   pad, amount      "amount" and numbers as for stride, or a name           *)
(*   mode             padding mode                                            *)
EXTENDS Conv

Names == {"same", "valid"}
PadModes == {"zeros", "reflect", "replicate", "circular"}
Or(s, d) == IF s = <<>> THEN d ELSE s
OrName(s, d) == IF s = "" THEN d ELSE s
AxisOf(s, a) == s[Min2(a, Len(s))]
Axis(s, d, a) == AxisOf(Or(s, <<d>>), a)

\* Number of rotations and reflections of the group kernel.  The default is 4 of each.
Asked(o) == LET s == Or(o.gsize, <<4>>)
            IN IF o.refl THEN << s[1], s[Len(s)] >> ELSE << s[1], 0 >>
Sizes(o) == Or(o.grid, Asked(o))
Groups1(o) == AxisOf(Or(o.groups, <<1>>), 1)
PadName(o) == OrName(o.pad, "amount")
Amount(o, a) == IF PadName(o) = "amount" THEN Axis(o.amount, 0, a) ELSE 0
Stride(o, a) == Axis(o.stride, 1, a)
Dil(o, a) == Axis(o.dil, 1, a)
Mode(o) == OrName(o.mode, "zeros")

Empty(s) == s[1] < 0 \/ s[2] < 0 \/ s[1] + s[2] <= 0
Complaints(o) ==
  LET g == Groups1(o)
  IN {c[1] : c \in {x \in {
       << "groups", g <= 0 >>,
       << "in", g > 0 /\ o.in % g # 0 >>,
       << "out", g > 0 /\ o.out % g # 0 >>,
       << "group kernel", Empty(Sizes(o)) >>,
       << "padding", PadName(o) # "amount" /\ PadName(o) \notin Names >>,
       << "same with stride", PadName(o) = "same" /\ \E a \in 1..o.dim : Stride(o, a) # 1 >>,
       << "mode", Mode(o) \notin PadModes >> } : x[2]}}
\* Not said: an impossible size next to a grid that overrules it.
Unsaid(o) == o.grid # <<>> /\ Empty(Asked(o)) /\ Complaints(o) = {}

Geo1(o, L, a) ==
  LET p == PadName(o)
      d == Dil(o, a)
  IN [L |-> L, k |-> o.k, s |-> Stride(o, a), d |-> d, mode |-> Mode(o),
      pl |-> IF p = "amount" THEN Amount(o, a) ELSE PadLeft(p, o.k, d),
      pr |-> IF p = "amount" THEN Amount(o, a) ELSE PadRight(p, o.k, d)]
GeoOf(o, L) == [a \in 1..o.dim |-> Geo1(o, L, a)]
=============================================================================

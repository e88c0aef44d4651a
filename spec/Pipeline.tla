------------------------------ MODULE Pipeline ------------------------------
(* Networks: sequences of modules, and what each does to the sizes of the     *)
(* feature map and of the group grid that goes with it.                       *)
(*                                                                           *)
(* A state f: [dim, refl, stage, N, C, H, sp, grid]                          *)
(*   stage  "plain" before lifting, "lifted", "pooled" at the end             *)
(*   H      elements of the feature map, grid: elements of the grid           *)
(* A module m is a record with the field op; the others depend on it.         *)
EXTENDS Conv, Pooling

Lift == {"lift"}
Convs == {"sep", "full"}
Acts == {"GReLU", "GGELU", "GLeakyReLU", "GWrap"}
Norms == {"GBatchNorm", "GInstanceNorm", "GLayerNorm"}
Pools == {"GMaxSpatialPool", "GAvgSpatialPool"}
Adapts == {"GAdaptiveMaxSpatialPool", "GAdaptiveAvgSpatialPool"}
Ends == {"GMaxGroupPool", "GAvgGroupPool", "GMaxGlobalPool", "GAvgGlobalPool"}
Ops == Lift \cup Convs \cup Acts \cup Norms \cup Pools \cup Adapts \cup Ends

Cells0(f) == ProdSeq(f.sp)
\* geometry of the axes under a convolution
GeoOf(f, m) == [a \in 1..f.dim |->
  [L |-> f.sp[a], k |-> m.k, s |-> m.s, d |-> m.d, mode |-> m.mode,
   pl |-> IF m.pad = "amount" THEN m.p ELSE PadLeft(m.pad, m.k, m.d),
   pr |-> IF m.pad = "amount" THEN m.p ELSE PadRight(m.pad, m.k, m.d)]]
ConvFits(f, m) ==
  /\ f.C % m.groups = 0 /\ m.co % m.groups = 0
  /\ m.pad = "same" => m.s = 1
  /\ m.nr + (IF f.refl THEN m.nf ELSE 0) > 0
  /\ LET g == GeoOf(f, m) IN \A a \in 1..f.dim : OutSize(g[a].L, g[a].k, g[a].s, g[a].d, g[a].pl, g[a].pr) >= 1 /\ CanPad(m.mode, g[a].L, g[a].pl, g[a].pr)
PoolAxes(f, m) == [a \in 1..f.dim |-> [L |-> f.sp[a], k |-> m.k, s |-> m.s, p |-> m.p, d |-> 1, ceil |-> m.ceil]]
PoolFits(f, m) == 2 * m.p <= m.k /\ \A a \in 1..f.dim : m.k <= f.sp[a]
\* elements of the reference grid of a kernel
RefSize(f, m) == m.nr + (IF f.refl THEN m.nf ELSE 0)

Enabled(f, m) ==
  CASE m.op \in Lift -> f.stage = "plain" /\ ConvFits(f, m)
    [] m.op \in Convs -> f.stage = "lifted" /\ ConvFits(f, m)
    [] m.op \in Acts -> f.stage = "lifted"
    [] m.op = "GBatchNorm" -> f.stage = "lifted" /\ f.N * f.H * Cells0(f) > 1
    [] m.op = "GInstanceNorm" -> f.stage = "lifted" /\ f.H * Cells0(f) > 1
    [] m.op = "GLayerNorm" -> f.stage = "lifted" /\ m.last <= f.dim + 2
    [] m.op \in Pools -> f.stage = "lifted" /\ PoolFits(f, m)
    [] m.op \in Adapts -> f.stage = "lifted"
    [] m.op \in Ends -> f.stage = "lifted"

\* no = 0: no output elements are asked for
After(f, m) ==
  CASE m.op \in Lift \cup Convs ->
         LET n == IF m.no > 0 THEN m.no ELSE IF m.op = "lift" \/ f.refl THEN RefSize(f, m) ELSE f.H
         IN [f EXCEPT !.stage = "lifted", !.C = m.co, !.H = n, !.grid = n, !.sp = OutShape(GeoOf(f, m))]
    [] m.op \in Acts \cup Norms -> f
    [] m.op \in Pools -> [f EXCEPT !.sp = LET p == PoolAxes(f, m) IN [a \in 1..f.dim |-> PoolOut(p[a])]]
    [] m.op \in Adapts -> [f EXCEPT !.sp = [a \in 1..f.dim |-> m.size]]
    [] m.op \in {"GMaxGroupPool", "GAvgGroupPool"} -> [f EXCEPT !.stage = "pooled", !.H = 0, !.grid = 0]
    [] m.op \in {"GMaxGlobalPool", "GAvgGlobalPool"} -> [f EXCEPT !.stage = "pooled", !.H = 0, !.grid = 0, !.sp = <<1>>]
ShapeOf(f) == << f.N, f.C >> \o (IF f.stage = "lifted" THEN <<f.H>> ELSE <<>>) \o f.sp
=============================================================================

------------------------------ MODULE TraceC19 ------------------------------
(* C19: constructor options are honoured or rejected.                        *)
(* Behaviours of MCOptions replayed on constructors, and kernels built with   *)
(* some of their sampling options left out.                                  *)
EXTENDS KernelJudge, ConvJudge, Options, OutputGrid

Count(rows, c) == Cardinality({i \in 1..Len(rows) : rows[i][1] = c})

\* e.o options; e.raised; otherwise what was built: the group grid (rows), the number of weights
\* on the group (wn, 0 for none), bias, the default output (ran, so, hs, moved), repr
Built(e) ==
  LET n == Sizes(e.o)
      g == GeoOf(e.o, e.L)
      ng == n[1] + n[2]
  IN Failing(<<
       << "rotations and reflections in the group kernel", Count(e.rows, 1) = n[1] /\ Count(e.rows, -1) = n[2] /\ Len(e.rows) = ng >>,
       << "provided grid is used", e.o.grid = <<>> \/ SameList(e.kd, e.rows, e.given, 6) >>,
       << "one weight for each element", e.wn \in {0, ng} >>,
       << "bias", e.bias = (e.o.bias = "yes") >>,
       << "mask", e.mask = (e.o.mask # "no") >>,
       << "can be printed", e.repr >>,
       << "can be run", e.ran >>,
       << "shape of the output", ~e.ran \/ e.so = << 1, e.o.out, e.no >> \o OutShape(g) >>,
       << "output elements permuted unless declined", ~e.ran \/ e.moved = (e.o.perm # "no") >> >>)
Build(e) == IF Unsaid(e.o) THEN {}
            ELSE IF Complaints(e.o) # {} THEN Failing(<< << "rejected when it cannot work", e.raised >> >>)
            ELSE IF e.raised THEN {"accepted when it can work"}
            ELSE Built(e)

\* e.y: the output of the layer built from e.o, e.K its kernel
Run(e) == Layer([form |-> e.form, axes |-> [a \in 1..e.o.dim |-> [L |-> e.L, k |-> e.o.k, s |-> Stride(e.o, a), d |-> Dil(e.o, a), amount |-> Amount(e.o, a)]],
                     pad |-> PadName(e.o), mode |-> Mode(e.o), groups |-> Groups1(e.o), nin |-> e.o.in, nout |-> e.o.out,
                     ni |-> e.ni, no |-> e.no, sc |-> e.sc, x |-> e.x, b |-> e.b, y |-> e.y, so |-> e.so, he |-> 0, ho |-> 0,
                     c0 |-> 0, c1 |-> 0, K |-> e.K, KS |-> e.KS])

-----------------------------------------------------------------------------
(* Sampling options.  e.opt: gmode, smode, spad ("" if left out), mask ("yes", *)
(* "no", ""), w (widths of both classes, 0 if left out); e.dg distances of the *)
(* reference elements.                                                       *)
Part(k, c) == {j \in 1..Len(k.grid) : k.grid[j][1] = c}
\* 0.8 times the mean distance to the nearest other element of the class
Nearest(k, dg, j) == LET D == {dg[j][m] : m \in Part(k, k.grid[j][1]) \ {j}} IN CHOOSE d \in D : \A x \in D : d <= x
SpacingWidth(k, dg, c) ==
  LET P == Part(k, c)
      sum == FoldLeft(LAMBDA a, j : IF j \in P THEN a + Nearest(k, dg, j) ELSE a, 0, [j \in 1..Len(k.grid) |-> j])
  IN IF Cardinality(P) < 2 THEN 1000000000 ELSE RDiv(4 * sum, 5 * Cardinality(P))
WidthOf(e, i) == IF e.opt.w[i] # 0 THEN e.opt.w[i] ELSE SpacingWidth(e.k, e.dg, IF i = 1 THEN 1 ELSE -1)
Resolve(e) ==
  LET gmode == OrName(e.opt.gmode, "rbf")
  IN [e EXCEPT !.k = [e.k EXCEPT !.gmode = gmode,
                                 !.smode = OrName(e.opt.smode, "bilinear"),
                                 !.spad = OrName(e.opt.spad, "border"),
                                 !.mask = IF e.opt.mask = "no" THEN [p \in 1..Len(e.k.grn) |-> 1] ELSE IF e.k.n = 0 THEN <<>> ELSE Mask(e.k.n, e.k.dim),
                                 !.w = IF gmode = "rbf" /\ e.form # "lift" THEN << WidthOf(e, 1), WidthOf(e, 2) >> ELSE <<1, 1>>]]
Kernel(e0) ==
  LET e == Resolve(e0)
      bad == CASE e.form = "lift" -> Lift(e) [] e.form = "sep" -> Sep(e) [] e.form = "full" -> Full(e) [] e.form = "sub" -> Sub(e)
  IN bad \cup Failing(<< << "certificate: distances", e.form = "lift" \/ e.k.gmode # "rbf" \/
        \A i, j \in 1..Len(e.k.grid) : e.k.grid[i][1] # e.k.grid[j][1] \/ IsDistance(e.k.k, e.dg[i][j], e.k.grid[i], e.k.grid[j]) >> >>)

TStInit == <<>>
TStep(s, e) == [st |-> s, bad |-> CASE e.op = "build" -> Build(e)
                                    [] e.op = "run" -> Run(e)
                                    [] e.op = "kernel" -> Kernel(e)]
=============================================================================

------------------------------ MODULE ConvJudge ------------------------------
(* Judge of a recorded call of a layer, given the kernel it used.             *)
EXTENDS TraceJudge, Conv

\* e.axes[a]: [L, k, s, d, amount]; e.pad: "amount", "same" or "valid"; e.mode
Geo(e) == [a \in 1..Len(e.axes) |->
             LET x == e.axes[a]
             IN [L |-> x.L, k |-> x.k, s |-> x.s, d |-> x.d, mode |-> e.mode,
                 pl |-> IF e.pad = "amount" THEN x.amount ELSE PadLeft(e.pad, x.k, x.d),
                 pr |-> IF e.pad = "amount" THEN x.amount ELSE PadRight(e.pad, x.k, x.d)]]

\* e.x[n][c][i] cells, e.K kernel, e.b bias by output channel, e.y[n][oc][o] cells.
\* Everything is an integer; kernels have scale e.sc (1 or 1000), and so do bias and output.
Layer(e) ==
  LET gs == Geo(e)
      N == Len(e.x)
      os == OutShape(gs)
      want == << N, e.nout, e.no >> \o os
  IN IF e.so # want THEN {"shape of the output"}
     ELSE LET T == Table(gs)
              opg == e.nout \div e.groups
              ipg == e.nin \div e.groups
              terms == Size(KShape(gs)) * ipg * e.ni
              tol == IF e.sc = 1 THEN 0 ELSE 6 + (IF e.form = "sep" THEN 12 ELSE 2) * terms
              \* one output channel and element of one sample
              at(n, oc, o) ==
                CASE e.form = "lift" -> [p \in 1..Len(T) |-> LiftAt(T[p], e.K[oc][o], e.x[n], oc, ipg, opg)]
                  [] e.form = "full" -> [p \in 1..Len(T) |-> FullAt(T[p], e.K[oc][o], e.x[n], oc, ipg, opg)]
                  [] e.form = "sep" -> LET m == Mixed(e.K[oc][o], e.x[n], oc, ipg, opg)
                                       IN [p \in 1..Len(T) |-> RDiv(Corr(T[p], e.KS[oc][o], m), e.sc)]
          IN Failing(<<
               << "convolution with the sampled kernel plus one bias per channel",
                  \A n \in 1..N, oc \in 1..e.nout, o \in 1..e.no :
                     LET v == at(n, oc, o)
                     IN \A p \in 1..Len(T) : Near(e.y[n][oc][o][p], v[p] + e.b[oc], tol) >>,
               << "elements returned", e.he = e.ho >>,
               << "arguments unchanged", e.c0 = e.c1 >> >>)
=============================================================================

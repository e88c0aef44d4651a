----------------------------- MODULE KernelJudge -----------------------------
(* Judges of recorded kernels: what a kernel returned for given elements.     *)
EXTENDS TraceJudge, Kernels

Tol == 30
Thousand(w) == [p \in 1..Len(w) |-> 1000 * w[p]]
Det(k, o) == IF k.det THEN o[1] ELSE 1

\* e.k the kernel record, e.outs / e.ins elements, e.w[oc][ic] cells, e.obs[oc][o][ic] cells
Lift(e) ==
  LET cells == [o \in 1..Len(e.outs) |-> CellsOf(e.k, Moved(e.k, e.outs[o]))]
  IN Failing(<<
    << "shape of the kernel", e.so = << Len(e.w), Len(e.outs), Len(e.w[1]) >> \o Shp(e.k.n, e.k.dim) >>,
    << "spatial kernel moved by the inverse of the output element",
       \A oc \in 1..Len(e.w), o \in 1..Len(e.outs), ic \in 1..Len(e.w[1]) :
          SpatialOk(e.k, cells[o], Det(e.k, e.outs[o]), Thousand(e.w[oc][ic]), e.obs[oc][o][ic], Tol) >>,
    << "arguments unchanged", e.c0 = e.c1 >> >>)

DistOk(e) == e.k.gmode = "rbf" =>
  \A o \in 1..Len(e.outs), i \in 1..Len(e.ins), j \in 1..Len(e.k.grid) :
     LET r == RelEl(e.k.k, e.outs[o], e.ins[i])
     IN r[1] # e.k.grid[j][1] \/ IsDistance(e.k.k, e.d[o][i][j], r, e.k.grid[j])

\* e.wH[j]: row of oc * ic numbers; e.oH[oc][o][ic][i]; e.wS[oc] cells, e.oS[oc][o] cells
GroupPart(e) ==
  LET rows == [o \in 1..Len(e.outs) |-> [i \in 1..Len(e.ins) |->
                 GroupRows(e.k, e.wH, RelEl(e.k.k, e.outs[o], e.ins[i]), IF e.k.gmode = "rbf" THEN e.d[o][i] ELSE <<>>)]]
  IN << << "certificate: distances and coefficients", DistOk(e) /\ CertOk(e.k, e.wH, e.dg) >>,
        << "group signal sampled at the relative element, entry by entry",
           \A o \in 1..Len(e.outs), i \in 1..Len(e.ins) :
              \E row \in rows[o][i] :
                 \A oc \in 1..e.nout, ic \in 1..e.nin : Near(e.oH[oc][o][ic][i], row[(oc - 1) * e.nin + ic], Tol) >> >>
Ones(n) == [i \in 1..n |-> 1]
Sub(e) == Failing(<< << "shape of the kernel", e.so = << e.nout, Len(e.outs), e.nin, Len(e.ins), 1, 1, 1 >> >> >>
                  \o GroupPart(e) \o << << "arguments unchanged", e.c0 = e.c1 >> >>)
Sep(e) ==
  LET cells == [o \in 1..Len(e.outs) |-> CellsOf(e.k, Moved(e.k, e.outs[o]))]
  IN Failing(<< << "shape of the group part", e.so = << e.nout, Len(e.outs), e.nin, Len(e.ins) >> \o Ones(e.k.dim) >>,
                << "shape of the spatial part", e.ss = << e.nout, Len(e.outs), 1 >> \o Shp(e.k.n, e.k.dim) >>,
                << "spatial kernel moved by the inverse of the output element",
                   \A oc \in 1..e.nout, o \in 1..Len(e.outs) :
                      SpatialOk(e.k, cells[o], Det(e.k, e.outs[o]), Thousand(e.wS[oc]), e.oS[oc][o], Tol) >>,
                << "arguments unchanged", e.c0 = e.c1 >> >> \o GroupPart(e))
\* e.wH[j]: row of oc * ic * cells; e.obs[oc][o][ic][i] cells
Full(e) ==
  LET np == Len(e.k.grn)
      rows == [o \in 1..Len(e.outs) |-> [i \in 1..Len(e.ins) |->
                 GroupRows(e.k, e.wH, RelEl(e.k.k, e.outs[o], e.ins[i]), IF e.k.gmode = "rbf" THEN e.d[o][i] ELSE <<>>)]]
      cells == [o \in 1..Len(e.outs) |-> CellsOf(e.k, Moved(e.k, e.outs[o]))]
      part(row, oc, ic) == LET b == ((oc - 1) * e.nin + ic - 1) * np IN SubSeq(row, b + 1, b + np)
  IN Failing(<< << "shape of the kernel", e.so = << e.nout, Len(e.outs), e.nin, Len(e.ins) >> \o Shp(e.k.n, e.k.dim) >>,
                << "certificate: distances and coefficients", DistOk(e) /\ CertOk(e.k, e.wH, e.dg) >>,
                << "kernel sampled at the relative element and moved, entry by entry",
                   \A o \in 1..Len(e.outs), i \in 1..Len(e.ins) :
                      \E row \in rows[o][i] :
                         \A oc \in 1..e.nout, ic \in 1..e.nin :
                            SpatialOk(e.k, cells[o], Det(e.k, e.outs[o]), part(row, oc, ic), e.obs[oc][o][ic][i], Tol) >>,
                << "arguments unchanged", e.c0 = e.c1 >> >>)
=============================================================================

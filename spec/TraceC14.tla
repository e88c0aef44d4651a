------------------------------ MODULE TraceC14 ------------------------------
(* C14: pooling reduces exactly the dimensions it names.                     *)
EXTENDS TraceJudge, Pooling

\* e.x[n][c][h] cells (integers), e.sp spatial shape; e.y[n][c][h] cells at scale 10^3.
Mean(v, C, n) == [sum |-> SumOver(v, C), n |-> n]
IsMean(y, m) == Near(y * m.n, 1000 * m.sum, m.n)
Axis(e, i) == [L |-> e.sp[i], k |-> e.k[i], s |-> e.s[i], p |-> e.p[i], d |-> e.d[i], ceil |-> e.ceil]
SpatialPool(e) ==
  LET d == Len(e.sp)
      ax == [i \in 1..d |-> Axis(e, i)]
      os == IF e.op = "adaptive" THEN e.out ELSE [i \in 1..d |-> PoolOut(ax[i])]
      win(o) == LET ix == Unflat(os, o - 1)
                IN [i \in 1..d |-> IF e.op = "adaptive" THEN AdaptWindow(e.sp[i], os[i], ix[i]) ELSE Window(ax[i], ix[i])]
      ws == [o \in 1..Size(os) |-> FlatCells(e.sp, win(o))]
      count(o) == IF e.op = "adaptive" THEN Cardinality(ws[o])
                  ELSE IF e.divisor > 0 THEN e.divisor
                  ELSE IF e.pad THEN LET ix == Unflat(os, o - 1) IN ProdSeq([i \in 1..d |-> Span(ax[i], ix[i])])
                  ELSE Cardinality(ws[o])
      cnt == [o \in 1..Size(os) |-> count(o)]
      fits == e.so = << Len(e.x), Len(e.x[1]), Len(e.x[1][1]) >> \o os
  IN Failing(<<
       << "returns features and the grid", e.kind = "pair" >>,
       << "shape", fits >>,
       << "grid returned unchanged", e.h0 = e.h1 >>,
       << "input unchanged", e.c0 = e.c1 >>,
       << IF e.fn = "max" THEN "maximum over the window of the same channel and element" ELSE "mean over the window of the same channel and element",
          fits => \A n \in 1..Len(e.x), c \in 1..Len(e.x[1]), h \in 1..Len(e.x[1][1]), o \in 1..Size(os) :
                    IF e.fn = "max" THEN e.y[n][c][h][o] = 1000 * MaxOver(e.x[n][c][h], ws[o])
                    ELSE IsMean(e.y[n][c][h][o], Mean(e.x[n][c][h], ws[o], cnt[o])) >> >>)
\* e.y[n][c] values
GroupPool(e) ==
  LET N == Len(e.x)
      C == Len(e.x[1])
      H == Len(e.x[1][1])
      col(n, c, p) == [h \in 1..H |-> e.x[n][c][h][p]]
      fits == e.so = << N, C >> \o e.sp
  IN Failing(<<
       << "returns a tensor", e.kind = "tensor" >>,
       << "shape", fits >>,
       << "input unchanged", e.c0 = e.c1 >>,
       << IF e.fn = "max" THEN "maximum over the elements" ELSE "mean over the elements",
          fits => \A n \in 1..N, c \in 1..C, p \in 1..Size(e.sp) :
                    IF e.fn = "max" THEN e.y[n][c][p] = 1000 * MaxOver(col(n, c, p), 1..H)
                    ELSE IsMean(e.y[n][c][p], Mean(col(n, c, p), 1..H, H)) >> >>)
GlobalPool(e) ==
  LET N == Len(e.x)
      C == Len(e.x[1])
      all(n, c) == FoldLeft(LAMBDA a, b : a \o b, <<>>, e.x[n][c])
      fits == ProdSeq(e.so) = N * C /\ SubSeq(e.so, 1, 2) = << N, C >>
  IN Failing(<<
       << "returns a tensor", e.kind = "tensor" >>,
       << "shape", fits >>,
       << "input unchanged", e.c0 = e.c1 >>,
       << IF e.fn = "max" THEN "maximum over elements and cells" ELSE "mean over elements and cells",
          fits => \A n \in 1..N, c \in 1..C :
                    LET v == all(n, c)
                    IN IF e.fn = "max" THEN e.y[n][c] = << 1000 * MaxSeq(v) >>
                       ELSE IsMean(e.y[n][c][1], [sum |-> SumSeq(v), n |-> Len(v)]) >> >>)
TStInit == <<>>
TStep(s, e) ==
  [st |-> s, bad |-> CASE e.op \in {"pool", "adaptive"} -> SpatialPool(e)
                       [] e.op = "group" -> GroupPool(e)
                       [] e.op = "global" -> GlobalPool(e)]
=============================================================================

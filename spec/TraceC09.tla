------------------------------ MODULE TraceC09 ------------------------------
(* C09: spatial reference grids and masks.                                   *)
EXTENDS TraceJudge, Spatial

\* e.g: coordinates in thousandths of a half step
Grid(e) ==
  IF Len(e.g) # Pow(e.n, e.dim) THEN {"number of grid points"}
  ELSE Failing(<<
    << "shape of the grid", e.so = Append(Shp(e.n, e.dim), e.dim) >>,
    << "uniform lattice from -1 to 1",
       \E pi \in Perms(e.dim) : LET r == RefGrid(e.n, e.dim, pi)
                                IN \A p \in 1..Len(r) : NearSeq(e.g[p], [a \in 1..e.dim |-> 1000 * r[p][a]], 3) >> >>)

\* A reference grid after the library moved it by a symmetry of the lattice: the same points.
Moved(e) ==
  LET round(v) == [a \in 1..e.dim |-> RDiv(v[a], 1000)]
      pts == {round(e.g[p]) : p \in 1..Len(e.g)}
  IN Failing(<<
    << "grid mapped onto itself",
       /\ pts = {CentreVec(e.n, e.dim, p) : p \in 1..Pow(e.n, e.dim)}
       /\ \A p \in 1..Len(e.g) : NearSeq(e.g[p], [a \in 1..e.dim |-> 1000 * round(e.g[p])[a]], 8) >> >>)

MaskFits(n, dim, m, v, den) ==      \* m = v times the mask (over den), thousandths
  \A p \in 1..Pow(n, dim) :
     LET c == CentreVec(n, dim, p)
         want == IF InMask(n, c) THEN RDiv(1000 * v, den) ELSE 0
     IN OnEdge(n, c) \/ Near(m[p], want, 6)

MaskEv(e) ==
  IF Len(e.m) # Pow(e.n, e.dim) THEN {"number of mask entries"}
  ELSE Failing(<<
    << "shape of the mask", e.so = Shp(e.n, e.dim) >>,
    << "indicator of the points within the radius", MaskFits(e.n, e.dim, e.m, 1, 1) /\ \A p \in 1..Len(e.m) : e.m[p] \in {0, 1000} >>,
    << "centre kept", e.n % 2 = 0 \/ e.m[(Len(e.m) + 1) \div 2] = 1000 >>,
    << "corners dropped", e.n = 1 \/ (e.m[1] = 0 /\ e.m[Len(e.m)] = 0) >> >>)

\* Sampled kernels of a constant signal: the constant where the mask is, if asked for.
\* e.obs[i]: cells of one entry, e.v[i] its constant, e.den[i] the determinant there.
Kern(e) ==
  Failing(<<
    << "number of kernel entries", Len(e.obs) = Len(e.v) /\ \A i \in 1..Len(e.obs) : Len(e.obs[i]) = Pow(e.n, e.dim) >>,
    << "mask applied exactly when asked for",
       \A i \in 1..Len(e.obs) :
          IF e.mask THEN MaskFits(e.n, e.dim, e.obs[i], e.v[i] * e.den[i], 1)
          ELSE \A p \in 1..Len(e.obs[i]) : Near(e.obs[i][p], 1000 * e.v[i] * e.den[i], 6) >> >>)

\* Outputs of a layer for constant kernels and an input of ones of the size of the kernel.
Summed(e) ==
  LET cells == IF e.mask THEN SumSeq(Mask(e.n, e.dim)) ELSE Pow(e.n, e.dim)
  IN Failing(<< << "layer output masked exactly when asked for",
                   Len(e.obs) = Len(e.v) /\ \A i \in 1..Len(e.obs) : Near(e.obs[i], 1000 * cells * e.v[i] * e.den[i], 20) >> >>)

TStInit == <<>>
TStep(s, e) ==
  [st |-> s, bad |-> CASE e.op = "grid" -> Grid(e)
                       [] e.op = "moved" -> Moved(e)
                       [] e.op = "mask" -> MaskEv(e)
                       [] e.op = "kernel" -> Kern(e)
                       [] e.op = "summed" -> Summed(e)]
=============================================================================

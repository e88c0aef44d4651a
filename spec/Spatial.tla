------------------------------- MODULE Spatial -------------------------------
(* Spatial reference grids, spherical masks and interpolation of spatial      *)
(* kernels.                                                                  *)
(*                                                                           *)
(* A kernel of size n in dimension dim has n^dim cells, numbered from 1 in    *)
(* row-major order; Cell(n, dim, p) is the index vector (0-based) of cell p.  *)
EXTENDS Groups

Pow(n, dim) == IF dim = 2 THEN n * n ELSE n * n * n
Shp(n, dim) == [i \in 1..dim |-> n]
Cell(n, dim, p) == Unflat(Shp(n, dim), p - 1)
CellNo(n, dim, ix) == Flat(Shp(n, dim), ix) + 1

-----------------------------------------------------------------------------
(* Reference grid.  Coordinates are numbers of half steps: an axis of n cells *)
(* runs from -(n-1) to n-1 in steps of 2, standing for -1 to 1.               *)
Ax(n, i) == 2 * i - (n - 1)
Perms(dim) == IF dim = 2 THEN {<<1, 2>>, <<2, 1>>}
              ELSE {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
\* The grid that lists the axes in the order pi: cell ix holds the vector with
\* coordinate a taken from axis pi[a].
RefGrid(n, dim, pi) == [p \in 1..Pow(n, dim) |-> LET ix == Cell(n, dim, p) IN [a \in 1..dim |-> Ax(n, ix[pi[a]])]]

\* Symmetries of the lattice: signed permutations of the axes.
Signs(dim) == [1..dim -> {1, -1}]
SymAct(pi, sg, v) == [a \in 1..Len(v) |-> sg[a] * v[pi[a]]]
\* The same symmetry on cells.
SymCell(n, dim, pi, sg, p) ==
  LET ix == Cell(n, dim, p)
  IN CellNo(n, dim, [a \in 1..dim |-> IF sg[a] = 1 THEN ix[pi[a]] ELSE n - 1 - ix[pi[a]]])

-----------------------------------------------------------------------------
(* Spherical mask: the cells closer than 1.1 to the centre.                   *)
SumSq(v) == FoldLeft(LAMBDA a, x : a + x * x, 0, v)
Radius2(n) == 121 * (n - 1) * (n - 1)
InMask(n, v) == IF n = 1 THEN TRUE ELSE 100 * SumSq(v) < Radius2(n)
OnEdge(n, v) == n > 1 /\ 100 * SumSq(v) = Radius2(n)   \* a matter of rounding
MaskAt(n, dim, p) == IF InMask(n, RefGrid(n, dim, [a \in 1..dim |-> a])[p]) THEN 1 ELSE 0
CentreVec(n, dim, p) == LET ix == Cell(n, dim, p) IN [a \in 1..dim |-> Ax(n, ix[a])]
Mask(n, dim) == [p \in 1..Pow(n, dim) |-> IF InMask(n, CentreVec(n, dim, p)) THEN 1 ELSE 0]

-----------------------------------------------------------------------------
(* Interpolation of a spatial kernel w (a sequence of n^dim numbers) at a     *)
(* position: vectors list the coordinates of the axes from the last to the    *)
(* first, -1 and 1 being the outer borders of the first and the last cell.    *)
\* Cell coordinate (scale S) of coordinate y (scale S).
Pix(n, y) == ((y + S) * n - S) \div 2
Clip(n, u) == IF u < 0 THEN 0 ELSE IF u > (n - 1) * S THEN (n - 1) * S ELSE u
\* reflection at the outer borders, -1/2 and n - 1/2
Fold(n, u) == LET v == (u + S \div 2) % (2 * n * S)
              IN (IF v > n * S THEN 2 * n * S - v ELSE v) - S \div 2
Pos(n, pad, y) == LET u == Pix(n, y)
                  IN CASE pad = "zeros" -> u
                       [] pad = "border" -> Clip(n, u)
                       [] pad = "reflection" -> Clip(n, Fold(n, u))
\* cell coordinates by axis (first to last) of the position vector v
PosVec(n, pad, v) == [a \in 1..Len(v) |-> Pos(n, pad, v[Len(v) + 1 - a])]

Corners(dim) == IF dim = 2 THEN << <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>
                ELSE << <<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>> >>
Inside(n, ix) == \A a \in 1..Len(ix) : ix[a] >= 0 /\ ix[a] < n
Share(u, c) == FoldLeft(LAMBDA x, a : RDiv(x * (IF c[a] = 1 THEN u[a] % S ELSE S - (u[a] % S)), S), S, [a \in 1..Len(u) |-> a])
\* Multilinear interpolation at cell coordinates u: the cells it draws on with their shares
\* (scale S), << <<cell, share>>, ... >>.
Shares(n, dim, u) ==
  LET all == [i \in 1..Len(Corners(dim)) |->
                LET c == Corners(dim)[i]
                    ix == [a \in 1..dim |-> u[a] \div S + c[a]]
                IN << IF Inside(n, ix) THEN CellNo(n, dim, ix) ELSE 0, Share(u, c) >>]
  IN SelectSeq(all, LAMBDA x : x[1] # 0 /\ x[2] # 0)
Weighted(sh, w) == RDiv(FoldLeft(LAMBDA x, y : x + y[2] * w[y[1]], 0, sh), S)
\* Nearest neighbour: the cells within rounding (0 stands for outside).
NearCells(n, dim, u) ==
  LET c(a) == {(u[a] + S \div 2 - 25) \div S, (u[a] + S \div 2 + 25) \div S}
      ixs == IF dim = 2 THEN {<<i, j>> : i \in c(1), j \in c(2)} ELSE {<<i, j, k>> : i \in c(1), j \in c(2), k \in c(3)}
  IN {IF Inside(n, ix) THEN CellNo(n, dim, ix) ELSE 0 : ix \in ixs}
=============================================================================

------------------------------- MODULE Kernels -------------------------------
(* The kernel a layer uses between an input element and an output element.   *)
(*                                                                           *)
(* Elements: <<coefficient>> \o angle (k = "angle") or quaternion ("quat"),   *)
(* as in Sampling; coefficient at scale 1, angles at 10^5, the rest at S.     *)
(* A kernel record k has                                                     *)
(*   k, dim, n        parameterization, spatial dimension and size            *)
(*   grid, nr         reference elements, the first nr of them rotations      *)
(*   gmode, w         group sampling mode and widths (10^5) of both classes   *)
(*   c                coefficients of the RBF interpolant of the weights      *)
(*                    (10^3), one row per reference element                   *)
(*   smode, spad      spatial sampling and padding mode                       *)
(*   grn              reference positions (scale S)                           *)
(*   mask             0/1 by cell                                             *)
EXTENDS Sampling, Spatial

RelEl(kd, o, i) == << o[1] * i[1] >> \o (IF kd = "angle" THEN << i[2] - o[2] >> ELSE QMul(QConj(Tail(o)), Tail(i)))
InvMove(kd, o, v) ==
  LET r == IF kd = "angle" THEN MatVec(2, Rot2(-o[2]), v, S) ELSE MatVec(3, QMat(QConj(Tail(o))), v, S)
  IN [a \in 1..Len(v) |-> o[1] * r[a]]

\* The stored group signal wH (one row of integers per reference element) at element r: the
\* rows it can be, at scale 10^3.  d: distances of r to the reference elements, used by RBF.
AtRef(k, r) == {j \in Class(r, k.nr, Len(k.grid)) : SCos(k.k, r, k.grid[j]) >= S - 2 /\ SSin(k.k, r, k.grid[j]) <= 12}
GroupRows(k, wH, r, d) ==
  LET n == Len(k.grid)
      idx == Class(r, k.nr, n)
      cols == 1..Len(wH[1])
      row(j) == [x \in cols |-> 1000 * wH[j][x]]
  IN IF idx = {} THEN {[x \in cols |-> 0]}
     ELSE IF AtRef(k, r) # {} THEN {row(j) : j \in AtRef(k, r)}
     ELSE IF k.gmode = "nearest" THEN {row(j) : j \in Closest(k.k, r, k.grid, idx)}
     ELSE LET wd == IF r[1] > 0 THEN k.w[1] ELSE k.w[2]
              gs == [j \in 1..n |-> IF j \in idx THEN Gauss(d[j], wd) ELSE 0]
          IN {[x \in cols |-> FoldLeft(LAMBDA a, j : IF gs[j] = 0 THEN a ELSE a + RDiv(gs[j] * k.c[j][x], S), 0, [j \in 1..n |-> j])]}

\* The certificates of RBF sampling: distances and coefficients.
CertOk(k, wH, dg) ==
  LET n == Len(k.grid)
      same(i, j) == k.grid[i][1] = k.grid[j][1]
      W(q) == IF q[1] > 0 THEN k.w[1] ELSE k.w[2]
      \* rows of the interpolation matrix
      G == [i \in 1..n |-> [j \in 1..n |-> IF same(i, j) THEN Gauss(dg[i][j], W(k.grid[i])) ELSE 0]]
  IN k.gmode = "rbf" =>
     /\ \A i, j \in 1..n : same(i, j) => IsDistance(k.k, dg[i][j], k.grid[i], k.grid[j])
     /\ \A i \in 1..n, x \in 1..Len(wH[1]) :
          Near(FoldLeft(LAMBDA a, j : a + RDiv(G[i][j] * k.c[j][x], S), 0, [j \in 1..n |-> j]), 1000 * wH[i][x], 40)

\* Positions (cell coordinates) at which output element o samples the spatial kernel.
Moved(k, o) == [p \in 1..Len(k.grn) |-> PosVec(k.n, k.spad, InvMove(k.k, o, k.grn[p]))]
\* What cell p of the moved kernel can be, given the stored spatial kernel w (scale 10^3), as
\* a function of the sampled positions.
CellsOf(k, mv) == IF k.smode = "nearest" THEN [p \in 1..Len(mv) |-> NearCells(k.n, k.dim, mv[p])]
                  ELSE [p \in 1..Len(mv) |-> {Shares(k.n, k.dim, mv[p])}]
ValOf(k, w, x) == IF k.smode = "nearest" THEN (IF x = 0 THEN 0 ELSE w[x]) ELSE Weighted(x, w)
\* obs (10^3, by cell) is w moved, masked, and divided by the determinant c (1 or -1).
SpatialOk(k, cells, c, w, obs, tol) ==
  /\ Len(obs) = Len(cells)
  /\ \A p \in 1..Len(obs) : IF k.mask[p] = 0 THEN obs[p] = 0
                            ELSE \E x \in cells[p] : Near(obs[p] * c, ValOf(k, w, x), tol)
=============================================================================

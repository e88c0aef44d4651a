------------------------------ MODULE Sampling ------------------------------
(* Interpolation of signals on a group.                                      *)
(*                                                                           *)
(* A sampler has a grid of elements; of those the first nr are rotations and *)
(* the others reflections (nr = Len(grid) for groups without reflections).   *)
(* Elements: <<coefficient>> \o angle or quaternion.                         *)
EXTENDS Groups

\* Cosine and sine of the distance of two elements of the same class.
SCos(k, a, b) == IF k = "angle" THEN CosA(AngDist(a[2], b[2]))
                 ELSE Abs(RDiv(a[2]*b[2] + a[3]*b[3] + a[4]*b[4] + a[5]*b[5], S))
SSin(k, a, b) == IF k = "angle" THEN SinA(AngDist(a[2], b[2]))
                 ELSE LET r == QMul(QConj(Tail(a)), Tail(b)) IN RSqrt(r[2]*r[2] + r[3]*r[3] + r[4]*r[4])
IsDistance(k, d, a, b) == d >= 0 /\ d <= 314300 /\ Near(CosA(d), SCos(k, a, b), 14) /\ Near(SinA(d), SSin(k, a, b), 14)

\* The indices a query may draw on: those of its own class.
Class(q, nr, n) == IF q[1] > 0 THEN 1..nr ELSE (nr + 1)..n
\* The grid elements closest to q, up to rounding.
Closest(k, q, g, idx) == {i \in idx : \A j \in idx : SCos(k, q, g[i]) + 4 >= SCos(k, q, g[j])}
\* Nearest neighbour interpolation.  A class without elements has no signal: zero.
NearestOk(k, q, g, nr, signal, obs) ==
  LET idx == Class(q, nr, Len(g))
  IN IF idx = {} THEN \A c \in 1..Len(obs) : obs[c] = 0
     ELSE \E i \in Closest(k, q, g, idx) : obs = signal[i]

\* Gaussian of half width w at distance d (both 10^5): 2^-((d/w)^2), at scale S.
Gauss(d, w) == LET r == (d \div w) * 5000 + RDiv((d % w) * 5000, w) \* ratio at scale 5000
               IN IF d \div w > 5 THEN 0 ELSE RDiv(Exp2Neg((r * r) \div 2500), 100)
\* Sum of the Gaussians around the grid elements of one class with coefficients c
\* (scale 10^3), at the distances ds; at scale 10^3.
Mix(ds, w, c, idx) == FoldLeft(LAMBDA a, j : IF j \in idx THEN a + RDiv(Gauss(ds[j], w) * c[j], S) ELSE a,
                               0, [j \in 1..Len(ds) |-> j])
=============================================================================

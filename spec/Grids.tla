-------------------------------- MODULE Grids --------------------------------
(* What a generated grid must look like.                                     *)
EXTENDS Params

\* Families: so2, o2, so3, o3, s2.  Parameterizations as in Params, plus "o2", "o3" and
\* "o3m" (the matrices of an o3 grid only).
\* Leading shape of the result of a request of this size (an integer list).
ElOf(p) == CASE p = "o2" -> <<2>> [] p = "o3" -> <<10>> [] p = "o3m" -> <<3, 3>> [] OTHER -> PShape(p)

\* One element is an element of the group at all.
IsElement(p, a) ==
  CASE p \in {"o2", "o3"} -> Valid(p, a, 30)
    [] p \in {"so3m", "quat", "so2m"} -> Valid(p, a, 30)
    [] p = "o3m" -> Valid("so3m", a, 30)
    [] p \in {"vec3", "euclid2"} -> PSane(p, a) /\ PUnit(p, a, 30)
    [] OTHER -> PSane(p, a)

\* Angles of planar grids lie in [0, 2 pi) (up to rounding of the last digit).
InRange(fam, a) == CASE fam = "so2" -> a[1] >= 0 /\ a[1] <= FT
                     [] fam = "o2" -> a[2] >= 0 /\ a[2] <= FT
                     [] OTHER -> TRUE

\* a rotations first, then b reflections
Coefficients(g, a, b) == Len(g) = a + b /\ \A i \in 1..(a + b) : g[i][1] = IF i <= a THEN S ELSE -S

\* n equally spaced angles starting at the identity, in order.
EquallySpaced(angles) == LET n == Len(angles) IN \A i \in 1..n : Abs(angles[i] - RDiv((i - 1) * FT, n)) <= 4

\* Rotations as unit quaternions or matrices: cosine of half the relative angle, squared.
CosHalfSq(p, a, b) ==
  IF p = "quat" THEN LET d == RDiv(Dot(a, b, 4), S) IN RDiv(d * d, S)
  ELSE LET tr == RDiv(Dot(a, b, 9), S) IN RDiv(tr + S, 4)
\* The closest two of n spatial rotations are at least about 1.2 n^(-1/3) (half angles)
\* apart: with s = sin^2 of the half angle, s^3 n^2 >= 1.2^6.  (Grids of the library reach
\* at least 1.75 n^(-1/3), random ones of 25 and more elements at most 0.86 n^(-1/3).)
Rotated3Apart(p, g) ==
  LET n == Len(g)
      enough(s) == IF s > 2000 THEN LET x == s \div 10 IN ((((x * x) \div 1000) * x) \div 1000) * n * n >= 2000
                   ELSE ((((s * s) \div 10) * s) \div 100000) * n * n >= 2000000
  IN \A i, j \in 1..n : i < j => enough(S - CosHalfSq(p, g[i], g[j]))
\* Distinct rotations: at least 0.01 apart.
Distinct3(p, g) == \A i, j \in 1..Len(g) : i < j => S - CosHalfSq(p, g[i], g[j]) >= 1
\* Points of the sphere: 2 (1 - cos) n >= 2.2^2.
Points3Apart(v) ==
  LET n == Len(v) IN
  \A i, j \in 1..n : i < j => 2 * (S - RDiv(Dot(v[i], v[j], 3), S)) * n >= 48400

\* The point of the sphere an SO(3) element of a sphere grid stands for, and whether its
\* first angle is zero (or minus the last).
PointOf(p, a) == CASE p = "sph" -> SphereVec(a)
                   [] p = "vec3" -> a
                   [] p = "euler" -> SphereVec(Tail(a))
                   [] OTHER -> Pole(Den(p, a))
FirstAngle(p, neg, a) ==
  CASE p = "euler" -> IF neg THEN AngDist(a[1], -a[3]) <= 4 ELSE AngDist(a[1], 0) <= 2
    [] p = "quat" -> IF neg THEN Abs(a[4]) <= 8 ELSE Abs(a[1] * a[2] + a[3] * a[4]) <= 30 * S
    [] p = "so3m" -> IF neg THEN Abs(a[4] - a[2]) <= 8 ELSE Abs(a[8]) <= 8
    [] OTHER -> TRUE
=============================================================================

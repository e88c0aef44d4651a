------------------------------- MODULE Groups -------------------------------
(* The groups, their parameterizations and actions.                          *)
(*                                                                           *)
(* Elements at fixed point:                                                  *)
(*   so2a  <<angle>>                    (scale 10^5)                         *)
(*   so2m  2x2 matrix, row major        (scale S)                            *)
(*   quat  <<w, x, y, z>>               (scale S)                            *)
(*   so3m  3x3 matrix, row major        (scale S)                            *)
(*   o2    <<coefficient, angle>>       (coefficient at scale S)             *)
(*   o3    <<coefficient>> \o matrix    (scale S)                            *)
EXTENDS Num

Dot(a, b, n) == FoldLeft(LAMBDA s, i : s + a[i] * b[i], 0, [i \in 1..n |-> i])

\* n x n matrices, row major; entries at scale sc, result rounded back to it.
MatMul(n, A, B, sc) ==
  [p \in 1..(n * n) |->
     LET r == (p - 1) \div n
         c == (p - 1) % n
     IN RDiv(FoldLeft(LAMBDA s, k : s + A[r * n + k] * B[(k - 1) * n + c + 1], 0, [k \in 1..n |-> k]), sc)]
Transpose(n, A) == [p \in 1..(n * n) |-> A[((p - 1) % n) * n + (p - 1) \div n + 1]]
MatVec(n, A, v, sc) == [r \in 1..n |-> RDiv(FoldLeft(LAMBDA s, k : s + A[(r - 1) * n + k] * v[k], 0, [k \in 1..n |-> k]), sc)]
Ident(n, sc) == [p \in 1..(n * n) |-> IF (p - 1) \div n = (p - 1) % n THEN sc ELSE 0]
Det2(A, sc) == RDiv(A[1] * A[4] - A[2] * A[3], sc)
\* scale S only: products of three entries are taken in two rounded steps
Det3(A) == LET m(i, j, k, l) == RDiv(A[i] * A[l] - A[j] * A[k], S)
           IN RDiv(A[1] * m(5, 6, 8, 9) - A[2] * m(4, 6, 7, 9) + A[3] * m(4, 5, 7, 8), S)

QMul(a, b) == << RDiv(a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4], S),
                 RDiv(a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3], S),
                 RDiv(a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2], S),
                 RDiv(a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1], S) >>
QConj(a) == << a[1], -a[2], -a[3], -a[4] >>
\* Matrix of a unit quaternion.
QMat(a) == LET p(i, j) == a[i] * a[j] IN
  << RDiv(p(1,1) + p(2,2) - p(3,3) - p(4,4), S), RDiv(2*(p(2,3) - p(1,4)), S), RDiv(2*(p(2,4) + p(1,3)), S),
     RDiv(2*(p(2,3) + p(1,4)), S), RDiv(p(1,1) - p(2,2) + p(3,3) - p(4,4), S), RDiv(2*(p(3,4) - p(1,2)), S),
     RDiv(2*(p(2,4) - p(1,3)), S), RDiv(2*(p(3,4) + p(1,2)), S), RDiv(p(1,1) - p(2,2) - p(3,3) + p(4,4), S) >>

\* Elementary rotations, angle at scale 10^5, entries at scale S.
Rot2(a) == << CosA(a), -SinA(a), SinA(a), CosA(a) >>
RotX(a) == << S, 0, 0, 0, CosA(a), -SinA(a), 0, SinA(a), CosA(a) >>
RotY(a) == << CosA(a), 0, SinA(a), 0, S, 0, -SinA(a), 0, CosA(a) >>
RotZ(a) == << CosA(a), -SinA(a), 0, SinA(a), CosA(a), 0, 0, 0, S >>
\* Extrinsic ZYZ Euler angles <<alpha, beta, gamma>>: first alpha about z, then beta
\* about y, then gamma about z.
EulerMat(g) == MatMul(3, RotZ(g[3]), MatMul(3, RotY(g[2]), RotZ(g[1]), S), S)
\* Spherical coordinates <<beta, gamma>>: the north pole turned by beta about y and
\* then by gamma about z.
SphereVec(g) == << RDiv(SinA(g[1]) * CosA(g[2]), S), RDiv(SinA(g[1]) * SinA(g[2]), S), CosA(g[1]) >>

-----------------------------------------------------------------------------
Kinds == {"so2a", "so2m", "quat", "so3m", "o2", "o3"}
Width(k) == CASE k = "so2a" -> 1 [] k = "so2m" -> 4 [] k = "quat" -> 4 [] k = "so3m" -> 9 [] k = "o2" -> 2 [] k = "o3" -> 10
\* Trailing dimensions of one element.
ElShape(k) == CASE k = "so2a" -> <<1>> [] k = "so2m" -> <<2, 2>> [] k = "quat" -> <<4>>
                [] k = "so3m" -> <<3, 3>> [] k = "o2" -> <<2>> [] k = "o3" -> <<10>>

Mul(k, a, b) ==
  CASE k = "so2a" -> << (a[1] + b[1]) % FT >>
    [] k = "so2m" -> MatMul(2, a, b, S)
    [] k = "quat" -> QMul(a, b)
    [] k = "so3m" -> MatMul(3, a, b, S)
    [] k = "o2" -> << RDiv(a[1] * b[1], S), (a[2] + b[2]) % FT >>
    [] k = "o3" -> << RDiv(a[1] * b[1], S) >> \o MatMul(3, Tail(a), Tail(b), S)
Inv(k, a) ==
  CASE k = "so2a" -> << -a[1] >>
    [] k = "so2m" -> Transpose(2, a)
    [] k = "quat" -> QConj(a)
    [] k = "so3m" -> Transpose(3, a)
    [] k = "o2" -> << a[1], -a[2] >>
    [] k = "o3" -> << a[1] >> \o Transpose(3, Tail(a))
DetOf(k, a) == IF k \in {"o2", "o3"} THEN a[1] ELSE S

\* Same element up to tolerance; angles modulo a turn.  Quaternions are compared as
\* quaternions (the algebra of unit quaternions is exact, signs included).
SameEl(k, a, b, tol) ==
  CASE k = "so2a" -> AngDist(a[1], b[1]) <= 10 * tol
    [] k = "o2" -> a[1] = b[1] /\ AngDist(a[2], b[2]) <= 10 * tol
    [] k = "o3" -> a[1] = b[1] /\ NearSeq(a, b, tol)
    [] OTHER -> NearSeq(a, b, tol)

\* a is an element of the group, up to tolerance.
Valid(k, a, tol) ==
  /\ Len(a) = Width(k)
  /\ CASE k = "so2a" -> Bounded(a, 100000000)
       [] k = "so2m" -> Bounded(a, 2 * S) /\ NearSeq(MatMul(2, a, Transpose(2, a), S), Ident(2, S), tol) /\ Near(Det2(a, S), S, tol)
       [] k = "quat" -> Bounded(a, 2 * S) /\ Near(RDiv(Dot(a, a, 4), S), S, tol)
       [] k = "so3m" -> Bounded(a, 2 * S) /\ NearSeq(MatMul(3, a, Transpose(3, a), S), Ident(3, S), tol) /\ Near(Det3(a), S, 2 * tol)
       [] k = "o2" -> a[1] \in {S, -S} /\ Bounded(a, 100000000)
       [] k = "o3" -> /\ a[1] \in {S, -S}
                      /\ Bounded(a, 2 * S)
                      /\ NearSeq(MatMul(3, Tail(a), Transpose(3, Tail(a)), S), Ident(3, S), tol)
                      /\ Near(Det3(Tail(a)), S, 2 * tol)
=============================================================================

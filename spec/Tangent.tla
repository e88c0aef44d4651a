------------------------------ MODULE Tangent ------------------------------
(* Elements near lattice elements, to first order: an element is a signed    *)
(* permutation matrix M (row major) and a rotation vector w at scale U with  *)
(* entries up to a few thousand, and denotes (I + [w]x) M up to 10^-6.  Says *)
(* what the conversions do far below the resolution of the other judgements. *)
EXTENDS Params

U == 10000000
QT == 15707963  \* a quarter turn at scale U

Cross3(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
\* plain products of small integer matrices and vectors
IMul(A, B) == [i \in 1..9 |-> LET r == (i - 1) \div 3  c == (i - 1) % 3
                              IN A[(3 * r) + 1] * B[c + 1] + A[(3 * r) + 2] * B[c + 4] + A[(3 * r) + 3] * B[c + 7]]
IAct(A, v) == [r \in 1..3 |-> A[(3 * r) - 2] * v[1] + A[(3 * r) - 1] * v[2] + A[3 * r] * v[3]]
\* cosine and sine of k quarter turns
QCos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
QSin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
QRx(k) == << 1, 0, 0, 0, QCos(k), -QSin(k), 0, QSin(k), QCos(k) >>
QRy(k) == << QCos(k), 0, QSin(k), 0, 1, 0, -QSin(k), 0, QCos(k) >>
QRz(k) == << QCos(k), -QSin(k), 0, QSin(k), QCos(k), 0, 0, 0, 1 >>

\* Euler angles of k quarter turns plus d
EulerBase(k) == IMul(QRz(k[3]), IMul(QRy(k[2]), QRz(k[1])))
EulerTangent(k, d) ==
  LET inner == << 0, 0, d[1] >>
      mid == IAct(QRy(k[2]), inner)
      sum == << mid[1], mid[2] + d[2], mid[3] >>
      outer == IAct(QRz(k[3]), sum)
  IN << outer[1], outer[2], outer[3] + d[3] >>
\* the nearest quarter turns and what remains, of angles at scale U
Quarters(g) == [i \in 1..Len(g) |-> (g[i] + (QT \div 2)) \div QT]
Rest(g) == [i \in 1..Len(g) |-> g[i] - ((Quarters(g)[i] * QT) + ((Quarters(g)[i] * 27) \div 100))]

\* (I + [w]x) M at scale U
FineMat(M, w) ==
  LET col(c) == Cross3(w, << M[c], M[c + 3], M[c + 6] >>)
  IN [i \in 1..9 |-> LET r == ((i - 1) \div 3) + 1  c == ((i - 1) % 3) + 1 IN (U * M[i]) + col(c)[r]]
FineVec(v, w) == [i \in 1..3 |-> (U * v[i]) + Cross3(w, v)[i]]
\* quaternions: p with half = TRUE stands for p / 2, otherwise for p times the root of a half
Ham(a, b) == << a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4],
                a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3],
                a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2],
                a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1] >>
IQMat(p) == LET w == p[1]  x == p[2]  y == p[3]  z == p[4]
            IN << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y),
                  2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x),
                  2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >>
IsQuatOf(p, half, M) == IQMat(p) = [i \in 1..9 |-> (IF half THEN 4 ELSE 2) * M[i]]
FineQuat(p, half, w) ==
  LET t == Ham(<< 0, w[1], w[2], w[3] >>, p)
  IN [i \in 1..4 |-> IF half THEN (5000000 * p[i]) + (t[i] \div 4)
                     ELSE (7071068 * p[i]) + ((t[i] * 985) \div 2786)]
=============================================================================

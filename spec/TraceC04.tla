------------------------------ MODULE TraceC04 ------------------------------
(* C04: named finite groups and cyclic groups.                               *)
EXTENDS TraceJudge, Groups, Fine

TOL == 8
FINE == 200  \* of 10^8: what single precision leaves
QDot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]
\* length of the vector part of a^-1 b: sine of half the angle between the rotations
Apart(a, b) == LET r == QMul(QConj(a), b) IN RSqrt(r[2]*r[2] + r[3]*r[3] + r[4]*r[4])
SameRot(a, b) == Apart(a, b) <= 2 * TOL

Order(g) == CASE g = "identity" -> 1 [] g = "klein" -> 4 [] g = "tetrahedral" -> 12
              [] g = "octahedral" -> 24 [] g = "icosahedral" -> 60
\* how many elements turn by which angle: << |cos| of half the angle, count >>
Spectrum(g) == CASE g = "identity" -> << <<10000, 1>> >>
                 [] g = "klein" -> << <<10000, 1>>, <<0, 3>> >>
                 [] g = "tetrahedral" -> << <<10000, 1>>, <<0, 3>>, <<5000, 8>> >>
                 [] g = "octahedral" -> << <<10000, 1>>, <<0, 9>>, <<5000, 8>>, <<7071, 6>> >>
                 [] g = "icosahedral" -> << <<10000, 1>>, <<0, 15>>, <<5000, 20>>, <<8090, 12>>, <<3090, 12>> >>

Unit(a) == Bounded(a, 2 * S) /\ Near(RDiv(QDot(a, a), S), S, TOL)
Named(e) ==
  LET n == Len(e.q)
      q == e.q
      f == e.f
      u == \A i \in 1..n : Len(q[i]) = 4 /\ Unit(q[i])
  IN IF e.so # << Order(e.name), 4 >> THEN {"number of elements"}
     ELSE IF ~u THEN {"unit quaternions"}
     ELSE Failing(<<
       << "pairwise different rotations", \A i \in 1..n : \A j \in (i + 1)..n : Apart(q[i], q[j]) > 1000 >>,
       << "contains the identity", \E i \in 1..n : SameRot(q[i], <<S, 0, 0, 0>>) >>,
       << "unit length to the last digit", \A i \in 1..n : FUnit(f[i], FINE) >>,
       << "closed under products", \A i \in 1..n : \A j \in 1..n :
             LET p == QMul(q[i], q[j])
             IN \E k \in 1..n : Abs(QDot(p, q[k])) > 95000000 /\ SameRot(p, q[k])
                                 /\ (\A c \in 1..4 : FSmall(f[i][c]) /\ FSmall(f[j][c])) /\ FSame(FQMul(f[i], f[j]), f[k], FINE) >>,
       << "closed under inverses", \A i \in 1..n : \E k \in 1..n : SameRot(QConj(q[i]), q[k]) /\ FSame(FQConj(f[i]), f[k], FINE) >>,
       << "rotation angles of the named group", \A s \in 1..Len(Spectrum(e.name)) :
             Cardinality({i \in 1..n : Near(Abs(q[i][1]), Spectrum(e.name)[s][1], TOL)}) = Spectrum(e.name)[s][2] >> >>)

AxisOf(x) == CASE x \in {"x", "X"} -> 2 [] x \in {"y", "Y"} -> 3 [] x \in {"z", "Z"} -> 4 [] OTHER -> 0
Cyclic(e) ==
  LET ax == AxisOf(e.axis) IN
  IF ax = 0 THEN (IF e.ok THEN {"other axes are rejected"} ELSE {})
  ELSE IF ~e.ok THEN {"axis refused"}
  ELSE IF e.so # << e.n, 4 >> THEN {"number of elements"}
  ELSE IF ~ \A k \in 1..e.n : Unit(e.q[k]) THEN {"unit quaternions"}
  ELSE Failing(<< << "multiples of a full turn over n about the axis, in order",
         \A k \in 1..e.n :
            LET h == RDiv((k - 1) * (FT \div 2), e.n)   \* half the angle
                want == [i \in 1..4 |-> IF i = 1 THEN CosA(h) ELSE IF i = ax THEN SinA(h) ELSE 0]
            IN SameRot(e.q[k], want) >>,
       << "each the product of the one before with the first turn, to the last digit",
         /\ \A k \in 1..e.n : FUnit(e.f[k], FINE)
         /\ FSame(e.f[1], <<FS, 0, 0, 0>>, FINE)
         /\ e.n > 1 => \A k \in 1..e.n : FSame(FQMul(e.f[k], e.f[2]), e.f[(k % e.n) + 1], FINE) >> >>)

TStInit == <<>>
TStep(s, e) ==
  [st |-> s,
   bad |-> CASE e.op = "named" -> Named(e)
             [] e.op = "cyclic" -> Cyclic(e)
             [] e.op = "again" -> Failing(<< << "a group is the same every time it is asked for", e.c0 = e.c1 >> >>)]
=============================================================================

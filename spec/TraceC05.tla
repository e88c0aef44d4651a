------------------------------ MODULE TraceC05 ------------------------------
(* C05: distances, nearest neighbours, logarithms.                           *)
EXTENDS TraceJudge, Groups

\* sine and cosine (scale S) of the expected distance of a and b
QV(a, b) == LET r == QMul(QConj(a), b) IN RSqrt(r[2]*r[2] + r[3]*r[3] + r[4]*r[4])
QC(a, b) == Abs(RDiv(a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4], S))
Cross3(a, b) == LET x == RDiv(a[2]*b[3] - a[3]*b[2], S)
                    y == RDiv(a[3]*b[1] - a[1]*b[3], S)
                    z == RDiv(a[1]*b[2] - a[2]*b[1], S)
                IN RSqrt(x*x + y*y + z*z)
SinOf(k, a, b) == CASE k = "angle" -> SinA(AngDist(a[1], b[1]))
                    [] k = "euclid2" -> Abs(RDiv(a[1]*b[2] - a[2]*b[1], S))
                    [] k = "quat" -> QV(a, b)
                    [] k = "vec3" -> Cross3(a, b)
CosOf(k, a, b) == CASE k = "angle" -> CosA(AngDist(a[1], b[1]))
                    [] k = "euclid2" -> RDiv(a[1]*b[1] + a[2]*b[2], S)
                    [] k = "quat" -> QC(a, b)
                    [] k = "vec3" -> RDiv(a[1]*b[1] + a[2]*b[2] + a[3]*b[3], S)
\* d (scale 10^5) is the distance, in [0, pi] resp. [0, pi / 2]
IsDist(k, d, s, c) == /\ d >= 0 /\ d <= (IF k = "quat" THEN 157180 ELSE 314260)
                      /\ Near(SinA(d), s, 14) /\ Near(CosA(d), c, 14)

\* d: distances of the elements that broadcasting brings together
Distances(e) ==
  LET lead == Broadcast(e.sa, e.sb) IN
  IF e.so # lead THEN {"shape of the distances"}
  ELSE Failing(<<
     << "distance is the angle of the relative rotation",
        \A p \in 1..Size(lead) :
          LET a == e.a[BIdx(e.sa, lead, p - 1) + 1]
              b == e.b[BIdx(e.sb, lead, p - 1) + 1]
          IN IsDist(e.kind, e.d[p], SinOf(e.kind, a, b), CosOf(e.kind, a, b)) >>,
     << "arguments unchanged", e.c0 = e.c1 >> >>)

\* The same two elements in several guises: swapped, other sign or period, multiplied by a third.
Guises(e) == Failing(<< << "distance does not depend on representation, order or a common factor",
                \A i \in 1..Len(e.d) : IsDist(e.kind, e.d[i], SinOf(e.kind, e.a, e.b), CosOf(e.kind, e.a, e.b)) >> >>)

Neighbours(e) ==
  LET n == Len(e.a) IN
  IF e.so # << n >> THEN {"shape of the nearest neighbour distances"}
  ELSE IF n = 1 THEN Failing(<< << "an only element has no neighbour", e.d[1] = BADV \/ e.inf >> >>)
  ELSE Failing(<<
     << "distance to the closest other element",
        \A i \in 1..n :
          LET others == {j \in 1..n : j # i}
              \* the closest other one: largest cosine
              c == CHOOSE j \in others : \A m \in others : CosOf(e.kind, e.a[i], e.a[j]) >= CosOf(e.kind, e.a[i], e.a[m])
              near == {j \in others : CosOf(e.kind, e.a[i], e.a[j]) + 3 >= CosOf(e.kind, e.a[i], e.a[c])}
          IN \E j \in near : IsDist(e.kind, e.d[i], SinOf(e.kind, e.a[i], e.a[j]), CosOf(e.kind, e.a[i], e.a[j])) >>,
     << "arguments unchanged", e.c0 = e.c1 >> >>)

\* Logarithm of the rotation by theta about a unit axis.  Both theta and the observed
\* vector are given in units of 10^-k (scale S).  At a half turn the axis has no sign.
Log(e) ==
  IF e.so # e.sa \o <<3>> THEN {"shape of the logarithm"}
  ELSE Failing(<<
    << "logarithm points along the axis and has the angle as length",
       \A i \in 1..Size(e.sa) :
          LET w == [c \in 1..3 |-> RDiv(e.theta[i] * e.axis[i][c], S)]
              neg == [c \in 1..3 |-> -w[c]]
          IN NearSeq(e.w[i], w, 8) \/ (e.half[i] /\ NearSeq(e.w[i], neg, 20)) >>,
    << "arguments unchanged", e.c0 = e.c1 >> >>)

LnTab(r) == CASE r = 1 -> 0 [] r = 2 -> 6931 [] r = 4 -> 13863 [] r = 3 -> 10986
QLog(e) ==
  IF e.so # << Len(e.theta), 4 >> THEN {"shape of the quaternion logarithm"}
  ELSE Failing(<<
    << "quaternion logarithm has half the angle as length",
       \A i \in 1..Len(e.theta) :
          LET w == [c \in 1..3 |-> RDiv(e.theta[i] * e.axis[i][c], S)]
          IN Near(e.w[i][1], LnTab(e.rho[i]), 4) /\ NearSeq(Tail(e.w[i]), w, 10) >>,
    << "arguments unchanged", e.c0 = e.c1 >> >>)

TStInit == <<>>
TStep(s, e) ==
  [st |-> s, bad |-> CASE e.op = "dist" -> Distances(e)
                       [] e.op = "guises" -> Guises(e)
                       [] e.op = "nn" -> Neighbours(e)
                       [] e.op = "log" -> Log(e)
                       [] e.op = "qlog" -> QLog(e)]
=============================================================================

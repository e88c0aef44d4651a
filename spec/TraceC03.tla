------------------------------ MODULE TraceC03 ------------------------------
(* C03: all parameterizations denote the same transformation.                *)
EXTENDS TraceJudge, Tangent

TOL == 10

\* e.from, e.to parameterizations; e.a elements with leading shape e.sa; e.r, e.so
\* the result.  "sph" to "euler" embeds a direction: alpha is zero, or minus gamma.
Conv(e) ==
  IF e.so # e.sa \o PShape(e.to) THEN {"shape of the converted elements"}
  ELSE LET n == Size(e.sa)
           emb == e.from = "sph" /\ e.to = "euler"
       IN Failing(<<
   << "finite", \A i \in 1..n : PSane(e.to, e.r[i]) >>,
   << "unit length", \A i \in 1..n : PSane(e.to, e.r[i]) => PUnit(e.to, e.r[i], 12) >>,
   << "denotes the same transformation",
      \A i \in 1..n : PSane(e.to, e.r[i]) =>
         IF emb THEN NearSeq(Pole(EulerMat(e.r[i])), SphereVec(e.a[i]), TOL)
         ELSE NearSeq(Den(e.to, e.r[i]), Den(e.from, e.a[i]), TOL) >>,
   << "embedding of the sphere",
      emb => \A i \in 1..n : IF e.fn = "neg_gamma" THEN AngDist(e.r[i][1], -e.a[i][2]) <= 5
                             ELSE AngDist(e.r[i][1], 0) <= 5 >>,
   << "arguments unchanged", e.c0 = e.c1 >> >>)

\* Elements close to lattice elements, at scale U: e.k quarter turns and e.d for angles;
\* e.m and e.w otherwise.  e.via lists the conversions done one after another.
Fine(e) ==
  LET k == CASE e.from = "euler" -> e.k [] e.from = "sph" -> << 0, e.k[1], e.k[2] >> [] OTHER -> << 0, 0, 0 >>
      d == CASE e.from = "euler" -> e.d [] e.from = "sph" -> << 0, e.d[1], e.d[2] >> [] OTHER -> << 0, 0, 0 >>
      M == CASE e.from \in {"euler", "sph"} -> EulerBase(k) [] e.from = "thx" -> QRx(e.k[1]) [] e.from = "thy" -> QRy(e.k[1])
             [] e.from = "thz" -> QRz(e.k[1]) [] OTHER -> e.m
      w == CASE e.from \in {"euler", "sph"} -> EulerTangent(k, d) [] e.from = "thx" -> << e.d[1], 0, 0 >>
             [] e.from = "thy" -> << 0, e.d[1], 0 >> [] e.from = "thz" -> << 0, 0, e.d[1] >> [] OTHER -> e.w
      pole == Pole(M)
      to == e.via[Len(e.via)]
      tol == IF "euler" \in {e.via[i] : i \in 1..Len(e.via)} /\ Abs(M[9]) = 1 THEN 240 ELSE 20
      flip(v) == [i \in 1..Len(v) |-> -v[i]]
  IN IF ~Bounded(e.r, 100000000) THEN {"finite"}
     ELSE IF ~IsQuatOf(e.p, e.half, M) THEN {"harness: quaternion of the lattice element"}
     ELSE Failing(<< << "accurate near lattice elements",
       CASE to = "so3m" -> NearSeq(e.r, FineMat(M, w), tol)
         [] to = "quat" -> NearSeq(e.r, FineQuat(e.p, e.half, w), tol) \/ NearSeq(flip(e.r), FineQuat(e.p, e.half, w), tol)
         [] to = "vec3" -> NearSeq(e.r, FineVec(pole, w), tol)
         [] to = "euler" -> Abs(M[9]) = 1 \/ LET kk == Quarters(e.r) IN EulerBase(kk) = M /\ NearSeq(EulerTangent(kk, Rest(e.r)), w, tol)
         [] to = "sph" -> Abs(M[9]) = 1 \/
              LET kk == Quarters(<< 0, e.r[1], e.r[2] >>) IN Pole(EulerBase(kk)) = pole
                    /\ NearSeq(FineVec(pole, EulerTangent(kk, Rest(<< 0, e.r[1], e.r[2] >>))), FineVec(pole, w), tol) >> >>)

\* Chains of conversions; the state is the rotation they all have to denote.
TStInit == <<>>
TStep(s, e) ==
  CASE e.op = "fine" -> [st |-> s, bad |-> Fine(e)]
    [] e.op = "conv" -> [st |-> s, bad |-> Conv(e)]
    [] e.op = "start" -> [st |-> [i \in 1..9 |-> S * e.m[i]], bad |-> {}]
    [] e.op = "startg" -> [st |-> Den(e.p, e.r), bad |-> {}]
    [] e.op = "hop" -> [st |-> s,
                        bad |-> IF ~PSane(e.p, e.r) THEN {"finite"}
                                ELSE Failing(<< << "chain of conversions", NearSeq(Den(e.p, e.r), s, 2 * TOL) >> >>)]
=============================================================================

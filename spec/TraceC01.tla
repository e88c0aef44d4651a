------------------------------ MODULE TraceC01 ------------------------------
(* C01: products, inverses, determinants, pairwise tables, register programs *)
EXTENDS TraceJudge, Groups

F == INSTANCE FiniteGroups WITH N <- 24

TOL == 6

\* e.kind, e.fn ("mul": broadcast, "mul_to": pairwise table), e.a, e.b elements in
\* row-major order of the leading shapes e.sa, e.sb; e.r, e.so the result and its
\* shape; e.c0, e.c1 fingerprints of the arguments before and after.
Binary(e) ==
  LET k == e.kind
      lead == IF e.fn = "mul" THEN Broadcast(e.sa, e.sb) ELSE e.sa \o e.sb
      ia(p) == IF e.fn = "mul" THEN BIdx(e.sa, lead, p) ELSE p \div e.sb[1]
      ib(p) == IF e.fn = "mul" THEN BIdx(e.sb, lead, p) ELSE p % e.sb[1]
  IN IF e.so # lead \o ElShape(k) THEN {"product shape"}
     ELSE LET n == Size(lead) IN Failing(<<
       << "product is a group element", \A p \in 1..n : Valid(k, e.r[p], 4 * TOL) >>,
       << "product of the elements that belong together",
          \A p \in 1..n : SameEl(k, e.r[p], Mul(k, e.a[ia(p - 1) + 1], e.b[ib(p - 1) + 1]), TOL) >>,
       << "determinant of the product", \A p \in 1..n :
            DetOf(k, e.r[p]) = RDiv(DetOf(k, e.a[ia(p - 1) + 1]) * DetOf(k, e.b[ib(p - 1) + 1]), S) >>,
       << "arguments unchanged", e.c0 = e.c1 >> >>)

InverseOf(e) ==
  LET k == e.kind IN
  IF e.so # e.sa \o ElShape(k) THEN {"inverse shape"}
  ELSE LET n == Size(e.sa) IN Failing(<<
       << "inverse is a group element", \A p \in 1..n : Valid(k, e.r[p], 4 * TOL) >>,
       << "inverse element", \A p \in 1..n : SameEl(k, e.r[p], Inv(k, e.a[p]), TOL) >>,
       << "arguments unchanged", e.c0 = e.c1 >> >>)

Determinant(e) ==
  IF e.so # e.sa \o <<1>> THEN {"determinant shape"}
  ELSE Failing(<< << "determinant", \A p \in 1..Size(e.sa) : e.r[p] = DetOf(e.kind, e.a[p]) >>,
                  << "arguments unchanged", e.c0 = e.c1 >> >>)

\* Exact finite element g against the observed element r of parameterization k.
Fixed(k, g, r) ==
  LET ang(x) == RDiv(x * FT, 24)
      scaled(x) == [i \in 1..Len(x) |-> S * x[i]]
      t == 3 * TOL
  IN Len(r) = Width(k) /\
     CASE k = "so2a" -> AngDist(r[1], ang(g[1])) <= 20
       [] k = "o2" -> r[1] = S * g[1] /\ AngDist(r[2], ang(g[2])) <= 20
       [] k = "quat" -> Valid(k, r, t) /\ NearSeq(QMat(r), scaled(g), t)
       [] k = "so3m" -> NearSeq(r, scaled(g), t)
       [] k = "o3" -> r[1] = S * g[1] /\ NearSeq(Tail(r), scaled(Tail(g)), t)

TStInit == [g |-> "", r |-> <<>>]
TStep(s, e) ==
  CASE e.op = "start" -> [st |-> [g |-> e.g, r |-> e.regs], bad |-> {}]
    [] e.op = "act" ->
         LET s1 == F!Apply(s, e.act)
         IN [st |-> s1,
             bad |-> Failing(<< << "register program", Fixed(e.kind, s1.r[e.act.d], e.r) >>,
                                << "arguments unchanged", e.c0 = e.c1 >> >>)]
    [] e.op = "bin" -> [st |-> s, bad |-> Binary(e)]
    [] e.op = "inv" -> [st |-> s, bad |-> InverseOf(e)]
    [] e.op = "det" -> [st |-> s, bad |-> Determinant(e)]
=============================================================================

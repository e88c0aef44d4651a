------------------------------ MODULE TraceC02 ------------------------------
(* C02: the action on vectors.                                               *)
EXTENDS TraceJudge, Groups

M == INSTANCE MCAction WITH N <- 4, GROUPS <- {}, DEPTH <- 0, HISTORY <- FALSE, COORD <- {},
                            g <- "", vs <- <<>>, v0 <- <<>>, prod <- <<>>, hist <- <<>>

VS == 1000              \* scale of vectors
TOL == 5

Dim(k) == IF k \in {"so2a", "so2m", "o2"} THEN 2 ELSE 3
\* Matrix by which an element acts (scale S).
ActMat(k, a) == CASE k = "so2a" -> Rot2(a[1])
                  [] k = "so2m" -> a
                  [] k = "so3m" -> a
                  [] k = "o2" -> [i \in 1..4 |-> Sgn(a[1]) * Rot2(a[2])[i]]
                  [] k = "o3" -> [i \in 1..9 |-> Sgn(a[1]) * a[i + 1]]

\* e.a elements with leading shape e.sa, e.v vectors with leading shape e.sv; e.r the
\* transformed vectors, e.so the shape of the result.
ApplyTo(e) ==
  LET k == e.kind
      n == Dim(k)
      nv == Size(e.sv)
  IN IF e.so # e.sa \o e.sv \o <<n>> THEN {"shape of the transformed grid"}
     ELSE Failing(<<
       << "every element moves every vector, in order",
          \A i \in 1..Size(e.sa) :
             LET A == ActMat(k, e.a[i])
             IN \A j \in 1..nv : NearSeq(e.r[(i - 1) * nv + j], MatVec(n, A, e.v[j], S), TOL) >>,
       << "arguments unchanged", e.c0 = e.c1 >> >>)

\* Images of the unit vectors (e.m: matrix whose columns they are, scale S) and the
\* determinant the library reports (scale S).
Orientation(e) ==
  LET d == IF Dim(e.kind) = 2 THEN Det2(e.m, S) ELSE Det3(e.m)
  IN IF Near(d, e.det, 20) THEN {}
     ELSE IF e.kind = "o2" /\ e.det = -S /\ Near(d, S, 20) THEN {"o2-reflection-orientation"}
     ELSE {"orientation disagrees with the determinant"}

\* Applying b and then a against applying the product; undoing with the inverse.
Composite(e) == Failing(<<
   << "product acts as right factor then left factor", Len(e.two) = Len(e.one) /\ \A j \in 1..Len(e.two) : NearSeq(e.two[j], e.one[j], TOL) >>,
   << "inverse undoes the element", Len(e.back) = Len(e.v) /\ \A j \in 1..Len(e.v) : NearSeq(e.back[j], e.v[j], TOL) >>,
   << "identity leaves vectors alone", e.id = e.v >> >>)

\* Walks over the lattice: the state holds the group and where the vectors are.
TStInit == [g |-> "", v |-> <<>>]
TStep(s, e) ==
  CASE e.op = "start" -> [st |-> [g |-> e.g, v |-> e.v], bad |-> {}]
    [] e.op = "move" ->
         LET v1 == [j \in 1..Len(s.v) |-> M!IApply(s.g, e.x, s.v[j])]
         IN [st |-> [s EXCEPT !.v = v1],
             bad |-> Failing(<< << "walk", Len(e.r) = Len(v1) /\ \A j \in 1..Len(v1) : NearSeq(e.r[j], v1[j], TOL) >>,
                                << "arguments unchanged", e.c0 = e.c1 >> >>)]
    [] e.op = "apply" -> [st |-> s, bad |-> ApplyTo(e)]
    [] e.op = "orient" -> [st |-> s, bad |-> Orientation(e)]
    [] e.op = "comp" -> [st |-> s, bad |-> Composite(e)]
=============================================================================

------------------------------ MODULE TraceC06 ------------------------------
(* C06: generated grids.                                                     *)
EXTENDS TraceJudge, Grids

\* e.fam, e.param, e.lead (requested leading shape), e.so, e.g (elements in order)
Common(e) == <<
  << "shape of the grid", e.so = e.lead \o ElOf(e.param) \/ (Size(e.lead) = 0 /\ Head(e.so) = 0) >>,
  << "valid elements", \A i \in 1..Len(e.g) : IsElement(e.param, e.g[i]) >>,
  << "documented range", \A i \in 1..Len(e.g) : InRange(e.fam, e.g[i]) >> >>
Basic(e) == Failing(SubSeq(Common(e), 1, 1)) = {} /\ Failing(Common(e)) = {}

Uniform(e) ==
  IF Failing(Common(e)) # {} THEN Failing(Common(e))
  ELSE CASE e.fam = "so2" -> Failing(<< << "equally spaced from the identity", EquallySpaced([i \in 1..Len(e.g) |-> e.g[i][1]]) >> >>)
         [] e.fam = "o2" -> Failing(<<
              << "rotations first, then reflections", Coefficients(e.g, e.size[1], e.size[2]) >>,
              << "rotations equally spaced", EquallySpaced([i \in 1..e.size[1] |-> e.g[i][2]]) >>,
              << "reflections equally spaced", EquallySpaced([i \in 1..e.size[2] |-> e.g[e.size[1] + i][2]]) >> >>)
         [] e.fam = "so3" ->
              LET p == IF e.param = "euler" THEN "so3m" ELSE e.param
                  g == IF e.param = "euler" THEN [i \in 1..Len(e.g) |-> EulerMat(e.g[i])] ELSE e.g
              IN Failing(<< << "elements well apart", Rotated3Apart(p, g) >>,
                            << "distinct elements", Distinct3(p, g) >> >>)
         [] e.fam = "o3" ->
              LET m == [i \in 1..Len(e.g) |-> IF e.param = "o3" THEN Tail(e.g[i]) ELSE e.g[i]]
              IN Failing(<<
                   << "rotations first, then reflections", e.param = "o3m" \/ Coefficients(e.g, e.size[1], e.size[2]) >>,
                   << "rotations well apart", Rotated3Apart("so3m", SubSeq(m, 1, e.size[1])) >>,
                   << "reflections well apart", Rotated3Apart("so3m", SubSeq(m, e.size[1] + 1, e.size[1] + e.size[2])) >> >>)
         [] e.fam = "s2" ->
              LET v == [i \in 1..Len(e.g) |-> PointOf(e.param, e.g[i])]
              IN Failing(<< << "points on the sphere", \A i \in 1..Len(v) : Near(RDiv(Dot(v[i], v[i], 3), S), S, 40) >>,
                            << "points well apart", Points3Apart(v) >>,
                            << "first angle", \A i \in 1..Len(e.g) : FirstAngle(e.param, e.neg, e.g[i]) >> >>)

\* Random grids: shape, validity, range, and no element twice.
Random(e) ==
  IF Failing(Common(e)) # {} THEN Failing(Common(e))
  ELSE Failing(<< << "no element twice", LET n == Len(e.g)
                                             twice == Cardinality({i \in 1..n : \E j \in 1..(i - 1) : e.g[i] = e.g[j]})
                                         IN twice <= IF n < 10 THEN 0 ELSE 2 >> >>)  \* angles are rounded to 10^-5

\* Large samples: moments and counts within six standard deviations or more of those of
\* the uniform distribution.  e.n elements as numbers at scale 10^3.
Moments(rows, c1, c2) ==      \* every coordinate: mean 0, mean square 1 / dim
  LET n == Len(rows)
      mean(k) == SumFn(n, LAMBDA i : rows[i][k]) \div n
      sq(k) == SumFn(n, LAMBDA i : (rows[i][k] * rows[i][k]) \div 1000) \div n
  IN \A k \in 1..Len(rows[1]) : Abs(mean(k)) <= c1 /\ Abs(sq(k) - 1000 \div 3) <= c2
Count(n, p(_)) == Cardinality({i \in 1..n : p(i)})
\* Every coordinate of a random direction, and so every entry of a random rotation, is spread
\* evenly over -1 to 1.
Even(rows) == \A k \in 1..Len(rows[1]), b \in 0..7 :
  LET c == Count(Len(rows), LAMBDA i : ((rows[i][k] + 1000) * 8) \div 2001 = b) IN c >= 50 /\ c <= 180
Coverage(e) ==
  LET n == Len(e.g) IN
  Failing(<<
    << "sample size", n = 900 >>,
    << "whole group covered",
       CASE e.what = "angle" -> \A k \in 0..7 : LET c == Count(n, LAMBDA i : (e.g[i] * 8) \div 6284 = k) IN c >= 50 /\ c <= 180
         [] e.what = "matrix" -> Moments(e.g, 130, 70) /\ Even(e.g)
         [] e.what = "vector" -> Moments(e.g, 130, 70) /\ Even(e.g)
         [] e.what = "sign" -> LET c == Count(n, LAMBDA i : e.g[i] > 0) IN c >= 330 /\ c <= 570
         [] e.what = "product" -> \A k \in 1..Len(e.g[1]) : Abs(SumFn(n, LAMBDA i : e.g[i][k]) \div n) <= 130 >> >>)

\* e.c: coefficients of a square random grid; no row and no column is all of one kind, and
\* rows, like columns, differ.
Each(e) ==
  LET n == Len(e.c)
      kinds(f(_)) == {f(j) : j \in 1..n} = {1, -1}
  IN Failing(<<
       << "shape of the grid", \A i \in 1..n : Len(e.c[i]) = n >>,
       << "every element is a rotation or a reflection by itself",
          /\ \A i \in 1..n : Len(e.c[i]) = n /\ kinds(LAMBDA j : e.c[i][j]) /\ kinds(LAMBDA j : e.c[j][i])
          /\ \A i, j \in 1..n : i < j => e.c[i] # e.c[j] /\ (\E k \in 1..n : e.c[k][i] # e.c[k][j]) >> >>)

\* Single draws, as used for permuting output grids.
Singles(e) == Failing(<<
    << "both classes occur", (\E i \in 1..Len(e.c) : e.c[i] > 0) /\ (\E i \in 1..Len(e.c) : e.c[i] < 0) >>,
    << "coefficients", \A i \in 1..Len(e.c) : Abs(e.c[i]) = S >>,
    << "draws differ", Cardinality({e.t[i] : i \in 1..Len(e.t)}) = Len(e.t) >> >>)

TStInit == <<>>
TStep(s, e) ==
  [st |-> s, bad |-> CASE e.op = "uniform" -> Uniform(e)
                       [] e.op = "random" -> Random(e)
                       [] e.op = "coverage" -> Coverage(e)
                       [] e.op = "singles" -> Singles(e)
                       [] e.op = "each" -> Each(e)
                       [] e.op = "unsupported" -> Failing(<< << "unsupported parameterization rejected", e.raised >> >>)]
=============================================================================

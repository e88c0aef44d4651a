------------------------------ MODULE TraceC08 ------------------------------
(* C08: sampling signals on the group.                                       *)
EXTENDS TraceJudge, Sampling

Shape(e) == << "shape of the sampled signal", e.so = << Len(e.qs), Len(e.signal[1]) >> >>

Nearest(e) ==
  IF ~Shape(e)[2] THEN {Shape(e)[1]}
  ELSE Failing(<< << "value at the closest grid element",
                     \A i \in 1..Len(e.qs) : NearestOk(e.k, e.qs[i], e.grid, e.nr, e.signal, e.obs[i]) >>,
                  << "arguments unchanged", e.c0 = e.c1 >> >>)

\* e.d, e.dq: distances grid to grid and queries to grid (10^5), certified here;
\* e.c: coefficients of the interpolant (10^3), certified here; e.w: widths of the classes.
Rbf(e) ==
  LET n == Len(e.grid)
      W(q) == IF q[1] > 0 THEN e.w[1] ELSE e.w[2]
      same(i, j) == e.grid[i][1] * e.grid[j][1] > 0
  IN IF ~Shape(e)[2] THEN {Shape(e)[1]}
     ELSE Failing(<<
       << "certificate: distances",
          /\ \A i, j \in 1..n : ~same(i, j) \/ IsDistance(e.k, e.d[i][j], e.grid[i], e.grid[j])
          /\ \A i \in 1..Len(e.qs), j \in 1..n : (e.qs[i][1] * e.grid[j][1] < 0) \/ IsDistance(e.k, e.dq[i][j], e.qs[i], e.grid[j]) >>,
       << "certificate: coefficients interpolate the signal",
          \A i \in 1..n, s \in 1..Len(e.signal[1]) :
             Near(Mix(e.d[i], W(e.grid[i]), [j \in 1..n |-> e.c[j][s]], Class(e.grid[i], e.nr, n)), 1000 * e.signal[i][s], 60) >>,
       << "sum of Gaussians around the elements of the same class",
          \A i \in 1..Len(e.qs), s \in 1..Len(e.signal[1]) :
             LET idx == Class(e.qs[i], e.nr, n)
             IN Near(Mix(e.dq[i], W(e.qs[i]), [j \in 1..n |-> e.c[j][s]], idx), e.obs[i][s], 100) >>,
       << "arguments unchanged", e.c0 = e.c1 >> >>)

\* Queries that are grid elements, in some order and representation: e.at[i] is the index.
OnGrid(e) ==
  IF ~Shape(e)[2] THEN {Shape(e)[1]}
  ELSE Failing(<< << "signal returned where it is defined",
                     \A i \in 1..Len(e.qs) : NearSeq(e.obs[i], [c \in 1..Len(e.signal[1]) |-> 1000 * e.signal[e.at[i]][c]], 25) >> >>)

Linear(e) == Failing(<< << "linear in the signal",
                           \A i \in 1..Len(e.o1) : NearSeq(e.o3[i], [c \in 1..Len(e.o1[i]) |-> e.a * e.o1[i][c] + e.b * e.o2[i][c]], 30) >> >>)

\* Barycentric weights: e.w[i][j] (scale 10^4) is the response of query i to the unit
\* signal at j; e.qs, e.grid are unit vectors; e.obs responses to an integer signal (10^3).
Bary(e) ==
  LET n == Len(e.grid)
      dot(i, j) == RDiv(e.qs[i][1]*e.grid[j][1] + e.qs[i][2]*e.grid[j][2] + e.qs[i][3]*e.grid[j][3], S)
      \* j can be among the three closest: at most two others are clearly closer
      close(i, j) == Cardinality({m \in 1..n : dot(i, m) > dot(i, j) + 4}) <= 2
      pos(i) == \A j \in 1..n : close(i, j) => e.w[i][j] > 300
      \* e.t[i]: the coordinates of the query, if known (certified: they lead in its direction)
      known(i) == [c \in 1..3 |-> SumFn(n, LAMBDA j : RDiv(e.t[i][j] * e.grid[j][c], S))]
      mean(i) == [c \in 1..3 |-> SumFn(n, LAMBDA j : RDiv(e.w[i][j] * e.grid[j][c], S))]
  IN IF e.so # << Len(e.qs), n >> THEN {"shape of the sampled signal"}
     ELSE Failing(<<
       << "weights are convex", \A i \in 1..Len(e.qs) : /\ \A j \in 1..n : e.w[i][j] >= -2 /\ e.w[i][j] # BADV
                                                        /\ Near(SumFn(n, LAMBDA j : e.w[i][j]), S, 10) >>,
       << "only the three closest count", \A i \in 1..Len(e.qs), j \in 1..n : e.w[i][j] > 2 => close(i, j) >>,
       << "weights apply to the signal", \A i \in 1..Len(e.qs), c \in 1..Len(e.signal[1]) :
            Near(e.obs[i][c], RDiv(SumFn(n, LAMBDA j : e.w[i][j] * e.signal[j][c]), 10), 25) >>,
       << "certificate: coordinates", \A i \in 1..Len(e.qs) : e.t[i] # <<>> =>
            LET m == known(i)
                len == RSqrt(m[1]*m[1] + m[2]*m[2] + m[3]*m[3])
            IN \A c \in 1..3 : Near(RDiv(m[c] * S, Max2(len, 1)), e.qs[i][c], 60) >>,
       << "coordinates of the query, where they are known", \A i \in 1..Len(e.qs) : e.t[i] # <<>> =>
            \A j \in 1..n : Near(e.w[i][j], e.t[i][j], 20) >>,
       << "barycentric coordinates of the query", \A i \in 1..Len(e.qs) : pos(i) =>
            LET m == mean(i)
                len == RSqrt(m[1]*m[1] + m[2]*m[2] + m[3]*m[3])
            IN len > 1000 => \A c \in 1..3 : Near(RDiv(m[c] * S, Max2(len, 1)), e.qs[i][c], 60) >>,  \* else rounding of the weights decides
       << "arguments unchanged", e.c0 = e.c1 >> >>)

\* Replayed behaviours of MCSampling.  s.base: first observation; s.who: which query stands where.
Swap(t, i, j) == [t EXCEPT ![i] = t[j], ![j] = t[i]]
Prog(s, e) ==
  LET who == IF e.act.op = "reorder" THEN Swap(s.who, e.act.i, e.act.j) ELSE s.who
  IN [st |-> [s EXCEPT !.who = who],
      bad |-> Failing(<< << "answers unaffected by relabelling, moving and reordering",
                            \A i \in 1..Len(who) : NearSeq(e.obs[i], s.base[who[i]], e.tol) >> >>)]

TStInit == [base |-> <<>>, who |-> <<>>]
TStep(s, e) ==
  IF e.op = "begin" THEN [st |-> [base |-> e.obs, who |-> [i \in 1..Len(e.obs) |-> i]], bad |-> {}]
  ELSE IF e.op = "prog" THEN Prog(s, e)
  ELSE [st |-> s, bad |-> CASE e.op = "nearest" -> Nearest(e)
                            [] e.op = "rbf" -> Rbf(e)
                            [] e.op = "ongrid" -> OnGrid(e)
                            [] e.op = "linear" -> Linear(e)
                            [] e.op = "bary" -> Bary(e)
                            [] e.op = "single" -> Failing(<< << "queries are answered one by one",
                                 \A i \in 1..Len(e.one) : NearSeq(e.one[i], e.all[i], e.tol) >> >>)
                            [] e.op = "unknown" -> Failing(<< << "unknown mode rejected", e.raised >> >>)]
=============================================================================

------------------------------ MODULE TraceC15 ------------------------------
(* C15: normalisation, activation and wrapped modules.                       *)
EXTENDS TraceJudge, Normal

Concat(m) == FoldLeft(LAMBDA a, b : a \o b, <<>>, m)
\* e.x[n][c] cells of all elements, e.y likewise at 10^3.
Begin(e) == [kind |-> e.kind, track |-> e.track, eps |-> e.eps, mom |-> e.mom, w |-> e.w, b |-> e.b,
             rm |-> e.rm, rv |-> e.rv, nb |-> 0, train |-> TRUE]
Batch(s) == s.train \/ ~s.track
Norm(s, e) ==
  LET N == Len(e.x)
      C == Len(e.x[1])
      pool(c) == Concat([n \in 1..N |-> e.x[n][c]])
      stat(n, c) == IF s.kind = "batch" THEN pool(c) ELSE e.x[n][c]
      m == IF s.mom = <<>> THEN << 1, s.nb + 1 >> ELSE s.mom
      P == [c \in 1..C |-> pool(c)]
      ok(n, c) ==
        LET v == IF s.kind = "batch" THEN P[c] ELSE e.x[n][c]
            sq == IF Batch(s) THEN SqOf(v, s.eps) ELSE SqRun(s.rv[c], s.eps)
        IN \A p \in 1..Len(e.x[n][c]) :
             Affine(e.y[n][c][p], IF Batch(s) THEN Standard(v, e.x[n][c][p], sq) ELSE StandardRun(s.rm[c], e.x[n][c][p], sq), sq, s.w[c], s.b[c])
      learns == s.train /\ s.track
      rmOk == \A c \in 1..C :
                IF ~learns THEN e.rm[c] = s.rm[c] /\ e.rv[c] = s.rv[c]
                ELSE LET k == Len(stat(1, c))
                         sets == IF s.kind = "batch" THEN 1 ELSE N
                         sums == SumFn(sets, LAMBDA n : Sum(stat(n, c)))
                         vars2 == SumFn(sets, LAMBDA n : NVar(stat(n, c)))
                     IN /\ Moving(s.rm[c], m, sums, sets * k, e.rm[c])
                        /\ Moving(s.rv[c], m, vars2, sets * k * (k - 1), e.rv[c])
  IN [st |-> [s EXCEPT !.rm = e.rm, !.rv = e.rv, !.nb = IF learns THEN @ + 1 ELSE @],
      bad |-> Failing(<<
        << "shape of the input", e.so = e.si >>,
        << "grid returned unchanged", e.h0 = e.h1 >>,
        << "input unchanged", e.c0 = e.c1 >>,
        << IF Batch(s) THEN "one statistic and one affine pair per channel" ELSE "evaluation uses the running statistics",
           e.so = e.si => \A n \in 1..N, c \in 1..C : ok(n, c) >>,
        << "running statistics", ~s.track \/ rmOk >> >>)]
\* e.x: the blocks of trailing dimensions that are normalised together
LayerN(e) == Failing(<<
  << "shape of the input", e.so = e.si >>,
  << "grid returned unchanged", e.h0 = e.h1 >>,
  << "input unchanged", e.c0 = e.c1 >>,
  << "normalises exactly the given dimensions",
     \A i \in 1..Len(e.x) : LET sq == SqOf(e.x[i], e.eps)
                            IN \A p \in 1..Len(e.x[i]) : Affine(e.y[i][p], Standard(e.x[i], e.x[i][p], sq), sq, e.w[p], e.b[p]) >> >>)
Activation(e) == Failing(<<
  << "shape of the input", e.so = e.si >>,
  << "grid returned unchanged", e.h0 = e.h1 >>,
  << "input unchanged", e.inplace \/ e.c0 = e.c1 >>,
  << "wrapped module called once", e.calls = 1 >>,
  << "parameters and mode of the wrapped module", e.inner = 1 >>,
  << "the function applied to every entry", Len(e.x) = Len(e.y) /\ \A i \in 1..Len(e.x) : Near(e.y[i], Applied(e.f, e.a, e.b, e.x[i]), 2) >> >>)

TStInit == <<>>
TStep(s, e) ==
  CASE e.op = "begin" -> [st |-> Begin(e), bad |-> {}]
    [] e.op = "train" -> [st |-> [s EXCEPT !.train = TRUE], bad |-> {}]
    [] e.op = "eval" -> [st |-> [s EXCEPT !.train = FALSE], bad |-> {}]
    [] e.op = "call" -> Norm(s, e)
    [] e.op = "layernorm" -> [st |-> s, bad |-> LayerN(e)]
    [] e.op = "activation" -> [st |-> s, bad |-> Activation(e)]
=============================================================================

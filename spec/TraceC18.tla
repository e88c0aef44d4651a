------------------------------ MODULE TraceC18 ------------------------------
(* C18: behaviours of MCCalls replayed on layers and other modules.           *)
EXTENDS TraceJudge, Calls, Num

Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 30 + Abs(b[i]) \div 2000)
\* s.memo, s.params[l][g]: versions of the parameters of the channel groups
CallStep(s, e) ==
  LET N == Len(e.b)
      xs == [x \in 1..(2 * N) |-> << 1 + ((x - 1) \div 2), 1 + ((x - 1) % 2) >>]
      key(x) == Key(e.l, x[2], s.params[e.l][x[2]], e.b[x[1]][x[2]], << e.i, s.lists[1][e.i] >>, << e.o, s.lists[2][e.o] >>)
      out(x) == e.y[x[1]][x[2]]
      m2 == FoldLeft(LAMBDA a, x : Learn(a, key(x), out(x)), s.memo, xs)
  IN [st |-> [s EXCEPT !.memo = m2],
      bad |-> Failing(<<
        << "same result for the same sample, channel group, grids and parameters", \A j \in 1..Len(xs) : Close(out(xs[j]), m2[key(xs[j])]) >>,
        << "nothing given or stored is changed", e.c0 = e.c1 >> >>)]
TStInit == [memo |-> <<>>, params |-> <<>>, lists |-> <<>>]
TStep(s, e) ==
  CASE e.op = "begin" -> [st |-> [memo |-> <<>>, params |-> e.params, lists |-> <<<<0, 0>>, <<0, 0>>>>], bad |-> {}]
    [] e.op = "edit" -> [st |-> [s EXCEPT !.params[e.l][e.g] = @ + 1], bad |-> {}]
    \* lists of elements have been given other contents, in place: e.of, pairs of side and index
    [] e.op = "relist" -> [st |-> [s EXCEPT !.lists = [i \in 1..2 |-> [j \in 1..2 |-> s.lists[i][j] + (IF << i, j >> \in Range(e.of) THEN 1 ELSE 0)]]], bad |-> {}]
    [] e.op = "call" -> CallStep(s, e)
    [] e.op = "aside" -> [st |-> s, bad |-> Failing(<< << "nothing given or stored is changed", e.c0 = e.c1 >> >>)]
=============================================================================

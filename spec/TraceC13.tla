------------------------------ MODULE TraceC13 ------------------------------
(* C13: the returned group grid is the one the features are defined on.       *)
(* Behaviours of MCOutGrid replayed on layers.                               *)
EXTENDS TraceJudge, OutputGrid

Close(a, b) == Near(a, b, 20 + Abs(b) \div 1000)
\* Matrices (scale S, row by row) of a returned list are rotations.
IsRot(m) == /\ \A i, j \in 0..2 : Near(RDiv(m[3*i+1]*m[3*j+1] + m[3*i+2]*m[3*j+2] + m[3*i+3]*m[3*j+3], S), IF i = j THEN S ELSE 0, 12)
            /\ \A i \in 0..2 : Near(RDiv(m[((i+1)%3)+1] * m[((i+2)%3)+4] - m[((i+2)%3)+1] * m[((i+1)%3)+4], S), m[i+7], 12)
ValidList(s, mats, ret) == /\ \A i \in 1..Len(ret) : ret[i][1] = 1 \/ (s.refl /\ ret[i][1] = -1)
                       /\ \A i \in 1..Len(mats) : IsRot(mats[i])
Begin(e) == [k |-> e.k, form |-> e.form, refl |-> e.refl, deflt |-> e.deflt, mine |-> e.mine, ins |-> e.ins, perm |-> e.perm, draws |-> <<>>]
Call(s, e) ==
  LET base == BaseOf(s.form, s.refl, IF e.r = 0 THEN <<>> ELSE s.mine[e.r], s.deflt, s.ins)
      d == IF e.ret = <<>> THEN <<>> ELSE Factor(s.k, e.ret[1], base[1])
      n == Len(s.draws)
      fits == Len(e.ret) = Len(base)
      bad == Failing(<<
        << "as many elements as requested", fits >>,
        << "valid elements", ValidList(s, e.mats, e.ret) >>,
        << "one element multiplied from the left", ~s.perm \/ ~fits \/ OneFactor(s.k, e.ret, base, 25) >>,
        << "the requested elements", s.perm \/ ~fits \/ SameList(s.k, e.ret, base, 6) >>,
        << "freshly drawn", ~s.perm \/ ~fits \/ n < 2 \/ ~(SameRow(s.k, d, s.draws[n], 2) /\ SameRow(s.k, d, s.draws[n - 1], 2)) >>,
        << "given and default elements unchanged", e.after = [deflt |-> s.deflt, mine |-> s.mine, ins |-> s.ins] /\ e.c0 = e.c1 >>,
        << "features belong to the returned elements",
           /\ e.so = e.so2 /\ e.so[3] = Len(e.ret)
           /\ Len(e.y) = Len(e.y2) /\ \A i \in 1..Len(e.y) : Close(e.y[i], e.y2[i]) >>,
        << "the list of the second call", SameList(s.k, e.ret2, e.ret, 6) >> >>)
  IN [st |-> IF s.perm /\ fits THEN [s EXCEPT !.draws = Append(@, d)] ELSE s, bad |-> bad]

\* Many calls in a row: the draws cover the group and do not repeat.
Many(e) ==
  LET D == [i \in 1..Len(e.ret) |-> Factor(e.k, e.ret[i], e.base)]
      again == {i \in 2..Len(D) : SameRow(e.k, D[i], D[i - 1], 1)}
  IN Failing(<<
       << "draws everywhere in the group", Cardinality({Place(e.k, D[i]) : i \in 1..Len(D)}) = 4 >>,
       << "reflections are drawn where there are any", {D[i][1] : i \in 1..Len(D)} = IF e.refl THEN {1, -1} ELSE {1} >>,
       << "a new element for each call", Cardinality(again) <= 3 >> >>)

TStInit == <<>>
TStep(s, e) ==
  CASE e.op = "begin" -> [st |-> Begin(e), bad |-> {}]
    [] e.op = "toggle" -> [st |-> [s EXCEPT !.perm = ~@], bad |-> {}]
    [] e.op = "edit" -> [st |-> [s EXCEPT !.mine[e.r] = e.now], bad |-> Failing(<< << "editing one list leaves the default alone", e.deflt = s.deflt >> >>)]
    [] e.op = "load" -> [st |-> [s EXCEPT !.deflt = e.now], bad |-> Failing(<< << "loaded list in use", SameList(s.k, e.now, e.want, 6) >>,
                                                                               << "loading leaves given lists alone", e.mine = s.mine >> >>)]
    [] e.op = "call" -> Call(s, e)
    [] e.op = "many" -> [st |-> s, bad |-> Many(e)]
=============================================================================

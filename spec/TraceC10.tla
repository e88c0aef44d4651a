------------------------------ MODULE TraceC10 ------------------------------
(* C10: sampled kernels.                                                     *)
EXTENDS KernelJudge

\* Replayed behaviours of MCKernel: s.base[oc][o][ic][i] first group part, who stands where.
Swap(t, i, j) == [t EXCEPT ![i] = t[j], ![j] = t[i]]
Prog(s, e) ==
  LET a == e.act
      wo == IF a.op = "swapout" THEN Swap(s.wo, a.i, a.j) ELSE IF a.op = "dropout" THEN SubSeq(s.wo, 1, Len(s.wo) - 1) ELSE s.wo
      wi == IF a.op = "swapin" THEN Swap(s.wi, a.i, a.j) ELSE IF a.op = "dropin" THEN SubSeq(s.wi, 1, Len(s.wi) - 1) ELSE s.wi
  IN [st |-> [s EXCEPT !.wo = wo, !.wi = wi],
      bad |-> Failing(<< << "group part follows the elements and ignores common factors",
                \A oc \in 1..Len(s.base) : Len(e.obs[oc]) = Len(wo) /\
                  \A o \in 1..Len(wo), ic \in 1..Len(s.base[1][1]) :
                     NearSeq(e.obs[oc][o][ic], [i \in 1..Len(wi) |-> s.base[oc][wo[o]][ic][wi[i]]], e.tol) >> >>)]

TStInit == [base |-> <<>>, wo |-> <<>>, wi |-> <<>>]
TStep(s, e) ==
  IF e.op = "begin" THEN [st |-> [base |-> e.obs, wo |-> [i \in 1..Len(e.obs[1]) |-> i], wi |-> [i \in 1..Len(e.obs[1][1][1]) |-> i]], bad |-> {}]
  ELSE IF e.op = "prog" THEN Prog(s, e)
  ELSE [st |-> s, bad |-> CASE e.op = "lift" -> Lift(e)
                            [] e.op = "sub" -> Sub(e)
                            [] e.op = "sep" -> Sep(e)
                            [] e.op = "full" -> Full(e)]
=============================================================================

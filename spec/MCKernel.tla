------------------------------ MODULE MCKernel ------------------------------
(* Group part of sampled kernels on a group that does not commute (the       *)
(* permutations of three things) under everything that must not matter or    *)
(* only reorders, and the memory layout of sampled kernels.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT NO, NI, DEPTH, HISTORY
VARIABLES outs, ins, wo, wi, base, hist
vars == <<outs, ins, wo, wi, base, hist>>

G == {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>}
Mul(a, b) == [i \in 1..3 |-> a[b[i]]]
Inv(a) == CHOOSE b \in G : Mul(a, b) = <<1,2,3>>
Kern(os, is) == [o \in 1..Len(os) |-> [i \in 1..Len(is) |-> Mul(Inv(os[o]), is[i])]]

Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Acts == [op : {"common"}, i : 1..6, j : {0}] \cup [op : {"swapout"}, i : 1..NO, j : 1..NO] \cup [op : {"swapin"}, i : 1..NI, j : 1..NI]
        \cup [op : {"dropout", "dropin"}, i : {0}, j : {0}]
Els == << <<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>> >>
Init == /\ IF HISTORY THEN outs = [i \in 1..NO |-> Els[i]] ELSE outs \in [1..NO -> G]
        /\ IF HISTORY THEN ins = [i \in 1..NI |-> Els[7 - i]] ELSE ins \in [1..NI -> G]
        /\ wo = [i \in 1..NO |-> i] /\ wi = [i \in 1..NI |-> i]
        /\ base = Kern(outs, ins)
        /\ hist = <<>>
Do(a) ==
  CASE a.op = "common" -> /\ outs' = [o \in 1..Len(outs) |-> Mul(Els[a.i], outs[o])]
                          /\ ins' = [i \in 1..Len(ins) |-> Mul(Els[a.i], ins[i])]
                          /\ UNCHANGED <<wo, wi>>
    [] a.op = "swapout" -> /\ a.i < a.j /\ a.j <= Len(outs) /\ outs' = Swap(outs, a.i, a.j) /\ wo' = Swap(wo, a.i, a.j)
                           /\ UNCHANGED <<ins, wi>>
    [] a.op = "swapin" -> /\ a.i < a.j /\ a.j <= Len(ins) /\ ins' = Swap(ins, a.i, a.j) /\ wi' = Swap(wi, a.i, a.j)
                          /\ UNCHANGED <<outs, wo>>
    [] a.op = "dropout" -> /\ Len(outs) > 1 /\ outs' = SubSeq(outs, 1, Len(outs) - 1) /\ wo' = SubSeq(wo, 1, Len(wo) - 1)
                           /\ UNCHANGED <<ins, wi>>
    [] a.op = "dropin" -> /\ Len(ins) > 1 /\ ins' = SubSeq(ins, 1, Len(ins) - 1) /\ wi' = SubSeq(wi, 1, Len(wi) - 1)
                          /\ UNCHANGED <<outs, wo>>
Next == \E a \in Acts : /\ Do(a) /\ UNCHANGED base
                        /\ hist' = IF HISTORY THEN Append(hist, a) ELSE hist
Spec == Init /\ [][Next]_vars
Follows == \A o \in 1..Len(outs), i \in 1..Len(ins) : Kern(outs, ins)[o][i] = base[wo[o]][wi[i]]

\* Layout.  A tensor is its shape and the map from flat positions to where they came from.
Prod(s) == IF s = <<>> THEN 1 ELSE LET RECURSIVE P(_) P(t) == IF t = <<>> THEN 1 ELSE Head(t) * P(Tail(t)) IN P(s)
RECURSIVE Un(_, _)
Un(s, p) == IF s = <<>> THEN <<>> ELSE Append(Un(SubSeq(s, 1, Len(s) - 1), p \div s[Len(s)]), p % s[Len(s)])
RECURSIVE Fl(_, _)
Fl(s, ix) == IF s = <<>> THEN 0 ELSE Fl(SubSeq(s, 1, Len(s) - 1), SubSeq(ix, 1, Len(ix) - 1)) * s[Len(s)] + ix[Len(ix)]
T2(t, a, b) == LET s2 == Swap(t.s, a, b) IN [s |-> s2, m |-> [p \in 0..(Prod(s2) - 1) |-> t.m[Fl(t.s, Swap(Un(s2, p), a, b))]]]
\* sampled signals: one row per pair (output element first), weights of the pair in declared order
Layout == \A no, ni, oc, ic \in 1..3 :
  LET t0 == [s |-> <<no, ni, oc, ic>>, m |-> [p \in 0..(no * ni * oc * ic - 1) |-> p]]
      t == T2(T2(T2(t0, 1, 3), 2, 3), 3, 4)
  IN /\ t.s = <<oc, no, ic, ni>>
     /\ \A c \in 0..(oc-1), o \in 0..(no-1), d \in 0..(ic-1), i \in 0..(ni-1) :
          t.m[Fl(t.s, <<c, o, d, i>>)] = (o * ni + i) * (oc * ic) + c * ic + d
ASSUME Layout
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

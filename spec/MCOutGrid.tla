------------------------------ MODULE MCOutGrid ------------------------------
(* Calls of a layer with and without random permutation, on a finite group:   *)
(* rotations by quarter turns with a coefficient.                            *)
(* The layer has a default list, the caller has two lists of its own; the     *)
(* caller may edit its lists and replace the default by loading a state.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT N, LEN, DEPTH, HISTORY
VARIABLES deflt, mine, perm, last, hist
vars == <<deflt, mine, perm, last, hist>>

G == {1, -1} \X (0..(N-1))
Mul(a, b) == << a[1] * b[1], (a[2] + b[2]) % N >>
Inv(a) == << a[1], (-a[2]) % N >>
Left(g, H) == [i \in 1..Len(H) |-> Mul(g, H[i])]
Lists == [1..LEN -> G]
Init == /\ deflt \in IF HISTORY THEN {[i \in 1..LEN |-> <<1, 0>>]} ELSE Lists
        /\ mine = << [i \in 1..LEN |-> << 1, (i - 1) % N >>], [i \in 1..LEN |-> <<-1, 1>>] >>
        /\ perm \in BOOLEAN
        /\ last = [base |-> <<>>, ret |-> <<>>]
        /\ hist = <<>>
Base(r) == IF r = 0 THEN deflt ELSE mine[r]
Note(o, i) == hist' = IF HISTORY THEN Append(hist, [op |-> o, i |-> i]) ELSE hist
Call(r) == /\ \E g \in IF perm /\ ~HISTORY THEN G ELSE {<<1, 0>>} : last' = [base |-> Base(r), ret |-> Left(g, Base(r))]
           /\ UNCHANGED <<deflt, mine, perm>>
           /\ Note("call", r)
Toggle == perm' = ~perm /\ UNCHANGED <<deflt, mine, last>> /\ Note("toggle", 0)
Edit(r) == /\ mine' = [mine EXCEPT ![r] = Left(<<1, 1>>, @)]
           /\ UNCHANGED <<deflt, perm, last>>
           /\ Note("edit", r)
Load == deflt' = Left(<<-1, 1>>, deflt) /\ UNCHANGED <<mine, perm, last>> /\ Note("load", 0)
Next == (\E r \in 0..2 : Call(r)) \/ Toggle \/ (\E r \in 1..2 : Edit(r)) \/ Load
Spec == Init /\ [][Next]_vars
Rel(a, b) == Mul(Inv(a), b)
\* relative elements, on which kernels depend, do not see the draw
SameRelative == \A i, j \in 1..Len(last.ret) : Rel(last.ret[i], last.ret[j]) = Rel(last.base[i], last.base[j])
OneDraw == last.ret = <<>> \/ \E g \in G : last.ret = Left(g, last.base)
\* without permutation a call does not change anything
Calls == [][\A r \in 0..2 : Call(r) => deflt' = deflt /\ mine' = mine /\ (~perm => last'.ret = Base(r))]_vars
\* lists with the same relative elements differ by one factor on the left, and only by that
ASSUME \A A, B \in Lists : (\A i, j \in 1..LEN : Rel(A[i], A[j]) = Rel(B[i], B[j])) <=> (\E g \in G : B = Left(g, A))
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

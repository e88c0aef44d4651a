------------------------------- MODULE MCNorm -------------------------------
(* Statistics of one channel of a feature map, shared by all its elements and *)
(* cells: they do not see reorderings of the elements or symmetries of the    *)
(* cells, and normalising commutes with both.                                *)
(* A normalisation module with running statistics is trained, evaluated and   *)
(* called in any order; in evaluation its statistics do not change.           *)
EXTENDS Normal, Json
CONSTANT NG, L, V, DEPTH, HISTORY
VARIABLES x, mode, n, hist
vars == <<x, mode, n, hist>>

Flatten(m) == FoldLeft(LAMBDA a, b : a \o b, <<>>, m)
Init == /\ x \in IF HISTORY THEN {[g \in 1..NG |-> [c \in 1..L |-> 0]]} ELSE [1..NG -> [1..L -> V]]
        /\ mode \in IF HISTORY THEN {"train", "eval"} ELSE {"train"}
        /\ n = 0
        /\ hist = <<>>
Note(o) == hist' = IF HISTORY THEN Append(hist, o) ELSE hist
Swap == \E i, j \in 1..NG : i < j /\ x' = [x EXCEPT ![i] = x[j], ![j] = x[i]] /\ UNCHANGED <<mode, n>>
Flip == x' = [g \in 1..NG |-> [c \in 1..L |-> x[g][L + 1 - c]]] /\ UNCHANGED <<mode, n>>
Mode(m) == mode # m /\ mode' = m /\ UNCHANGED <<x, n>>
Call == n' = (IF mode = "train" THEN n + 1 ELSE n) /\ UNCHANGED <<x, mode>>
Next == \/ ~HISTORY /\ (Swap \/ Flip) /\ UNCHANGED hist
        \/ HISTORY /\ (\E m \in {"train", "eval"} : Mode(m) /\ Note(m))
        \/ HISTORY /\ Call /\ Note("call")
Spec == Init /\ [][Next]_vars
Same == [][Sum(Flatten(x')) = Sum(Flatten(x)) /\ NVar(Flatten(x')) = NVar(Flatten(x))]_vars
\* mean zero and variance one where there is any variance; nothing is negative
Normed == LET v == Flatten(x)
              sq == SqOf(v, 0)
          IN /\ NVar(v) >= 0
             /\ SumSeq([i \in 1..Len(v) |-> Len(v) * v[i] - Sum(v)]) = 0
             /\ NVar(v) > 0 => Near(FoldLeft(LAMBDA a, b : a + RDiv(Standard(v, b, sq) * Standard(v, b, sq), 1000), 0, v), 1000 * Len(v), 10 * Len(v))
             /\ NVar(v) = 0 => \A i \in 1..Len(v) : Standard(v, v[i], sq) = 0
\* adding a constant changes nothing
Shift == LET v == Flatten(x) IN NVar([i \in 1..Len(v) |-> v[i] + 3]) = NVar(v)
OnlyTraining == [][n' # n => mode = "train"]_vars
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

----------------------------- MODULE MCSampling -----------------------------
(* Nearest neighbour sampling on the cyclic group with reflections under     *)
(* everything that must not matter: relabelling the grid with its signal,    *)
(* moving grid and queries by a common element, reordering the queries.      *)
(* The answer to every query stays the set of values at its closest grid     *)
(* elements; "who" tracks which query stands where.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT N, M, NQ, DEPTH, HISTORY
VARIABLES grid, sig, qs, who, base, hist
vars == <<grid, sig, qs, who, base, hist>>
Dist(a, b) == LET d == (a - b) % N IN IF d < N - d THEN d ELSE N - d
Answer(q) == {sig[i] : i \in {i \in 1..M : /\ grid[i][1] = q[1]
                                           /\ \A j \in 1..M : grid[j][1] = q[1] => Dist(q[2], grid[i][2]) <= Dist(q[2], grid[j][2])}}
Els == {1, -1} \X (0..(N - 1))
Distinct(g) == \A i, j \in 1..Len(g) : i # j => g[i] # g[j]
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Acts == [op : {"relabel"}, i : 1..M, j : 1..M] \cup [op : {"move"}, i : 1..(N - 1), j : {0}]
        \cup [op : {"reorder"}, i : 1..NQ, j : 1..NQ] \cup [op : {"rmove", "sign"}, i : 1..(N - 1), j : {0}]
Init == /\ IF HISTORY THEN grid = [i \in 1..M |-> <<IF i <= 2 THEN 1 ELSE -1, i>>] ELSE grid \in {g \in [1..M -> Els] : Distinct(g)}
        /\ IF HISTORY THEN qs = [i \in 1..NQ |-> <<IF i % 2 = 0 THEN 1 ELSE -1, i>>] ELSE qs \in [1..NQ -> Els]
        /\ sig = [i \in 1..M |-> i]
        /\ who = [i \in 1..NQ |-> i]
        /\ base = [i \in 1..NQ |-> Answer(qs[i])]
        /\ hist = <<>>
Do(a) ==
  CASE a.op = "relabel" -> a.i < a.j /\ grid' = Swap(grid, a.i, a.j) /\ sig' = Swap(sig, a.i, a.j) /\ UNCHANGED <<qs, who>>
    [] a.op \in {"move", "rmove"} -> /\ grid' = [x \in 1..M |-> <<grid[x][1], (grid[x][2] + a.i) % N>>]
                        /\ qs' = [x \in 1..NQ |-> <<qs[x][1], (qs[x][2] + a.i) % N>>]
                        /\ UNCHANGED <<sig, who>>
    [] a.op = "reorder" -> a.i < a.j /\ qs' = Swap(qs, a.i, a.j) /\ who' = Swap(who, a.i, a.j) /\ UNCHANGED <<grid, sig>>
    [] a.op = "sign" -> a.i <= NQ /\ UNCHANGED <<grid, sig, qs, who>>      \* another representative of the same element
Next == \E a \in Acts : /\ Do(a) /\ UNCHANGED base
                        /\ hist' = IF HISTORY THEN Append(hist, a) ELSE hist
Spec == Init /\ [][Next]_vars
SameAnswers == \A i \in 1..NQ : Answer(qs[i]) = base[who[i]]
AtGrid == \A i \in 1..NQ : \A j \in 1..M : qs[i] = grid[j] => Answer(qs[i]) = {sig[j]}
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

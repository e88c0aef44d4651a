---------------------------- MODULE MCModelStore ----------------------------
(* The heap behind ModelStore.  Models and user grids point at cells.  Copies *)
(* get cells of their own (SHARE = FALSE); with SHARE = TRUE a model keeps the *)
(* cell it was given, and isolation fails - which is what the trace check     *)
(* looks for in the code.                                                    *)
EXTENDS ModelStore, Json
CONSTANT NM, NG, NS, NV, SHARE, DEPTH, HISTORY
VARIABLES heap, ptr, saved, val, hist
vars == <<heap, ptr, saved, val, hist>>
\* names: models m1.. with a weight cell and a grid cell, grids g1.., saved states
Models == 1..NM
Grids == 1..NG
States == 1..NS
Cell == 1..(2 * NM + NG)
Init == /\ heap = [c \in Cell |-> 0]
        /\ ptr = [m |-> [i \in Models |-> [w |-> 0, g |-> 0]], g |-> [i \in Grids |-> i]]
        /\ saved = [s \in States |-> <<>>]
        \* what every name should be worth
        /\ val = [m |-> [i \in Models |-> <<>>], g |-> [i \in Grids |-> 0]]
        /\ hist = <<>>
Wcell(i) == NG + 2 * i - 1
Gcell(i) == NG + 2 * i
Note(r) == hist' = IF HISTORY THEN Append(hist, r) ELSE hist
Built(i) == val.m[i] # <<>>
Next ==
  \/ \E i \in Models, g \in 0..NG :   \* g = 0: default grid
       /\ ~Built(i)
       /\ LET gv == IF g = 0 THEN 0 ELSE heap[ptr.g[g]]
              gc == IF SHARE /\ g # 0 THEN ptr.g[g] ELSE Gcell(i)
          IN /\ heap' = [heap EXCEPT ![Wcell(i)] = 0, ![gc] = gv]
             /\ ptr' = [ptr EXCEPT !.m[i] = [w |-> Wcell(i), g |-> gc]]
             /\ val' = [val EXCEPT !.m[i] = <<0, gv>>]
       /\ UNCHANGED saved
       /\ Note([op |-> "build", t |-> i, s |-> g])
  \/ \E i \in Models, o \in {"train", "touch", "forward", "move"} :
       /\ Built(i)
       /\ IF o \in {"train", "touch"} THEN
            \E v \in IF HISTORY THEN {1} ELSE 1..NV :
              LET c == IF o = "train" THEN ptr.m[i].w ELSE ptr.m[i].g
              IN /\ heap' = [heap EXCEPT ![c] = v]
                 /\ val' = [val EXCEPT !.m[i] = IF o = "train" THEN <<v, val.m[i][2]>> ELSE <<val.m[i][1], v>>]
          ELSE UNCHANGED <<heap, val>>
       /\ UNCHANGED <<ptr, saved>>
       /\ Note([op |-> o, t |-> i, s |-> 0])
  \/ \E g \in Grids, v \in IF HISTORY THEN {1} ELSE 1..NV :
       /\ heap' = [heap EXCEPT ![ptr.g[g]] = v] /\ val' = [val EXCEPT !.g[g] = v]
       /\ UNCHANGED <<ptr, saved>>
       /\ Note([op |-> "edit", t |-> g, s |-> 0])
  \/ \E i \in Models, s \in States :
       /\ Built(i) /\ saved' = [saved EXCEPT ![s] = << heap[ptr.m[i].w], heap[ptr.m[i].g] >>]
       /\ UNCHANGED <<heap, ptr, val>>
       /\ Note([op |-> "save", t |-> s, s |-> i])
  \/ \E i \in Models, s \in States :
       /\ Built(i) /\ saved[s] # <<>>
       /\ heap' = [heap EXCEPT ![ptr.m[i].w] = saved[s][1], ![ptr.m[i].g] = saved[s][2]]
       /\ val' = [val EXCEPT !.m[i] = saved[s]]
       /\ UNCHANGED <<ptr, saved>>
       /\ Note([op |-> "load", t |-> i, s |-> s])
  \/ \E i, j \in Models, o \in {"copy", "pickle"} :
       /\ Built(i) /\ i # j
       /\ heap' = [heap EXCEPT ![Wcell(j)] = heap[ptr.m[i].w], ![Gcell(j)] = heap[ptr.m[i].g]]
       /\ ptr' = [ptr EXCEPT !.m[j] = [w |-> Wcell(j), g |-> Gcell(j)]]
       /\ val' = [val EXCEPT !.m[j] = val.m[i]]
       /\ UNCHANGED saved
       /\ Note([op |-> o, t |-> j, s |-> i])
Spec == Init /\ [][Next]_vars
\* every model and every grid is worth what its own operations made it
Isolated == /\ \A i \in Models : Built(i) => << heap[ptr.m[i].w], heap[ptr.m[i].g] >> = val.m[i]
            /\ \A g \in Grids : heap[ptr.g[g]] = val.g[g]
Unshared == \A i, j \in Models : (Built(i) /\ Built(j) /\ i # j) => {ptr.m[i].w, ptr.m[i].g} \cap {ptr.m[j].w, ptr.m[j].g} = {}
SavedKept == [][\A s \in States : saved'[s] = saved[s] \/ \E i \in Models : Built(i) /\ saved'[s] = val.m[i]]_vars
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

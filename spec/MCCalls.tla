------------------------------ MODULE MCCalls ------------------------------
(* Histories of calls of layers.  Each call gets a batch of contents from a    *)
(* pool and lists of elements; between calls parameters of one channel group   *)
(* change, modes are switched, and other calls (with random permutation, with  *)
(* gradients) take place, and the lists of elements change in place or are     *)
(* replaced by others with the same contents.  The function is computed with   *)
(* and without a leak (LEAK: of the neighbours, or of what a list contained    *)
(* when it was first used): the memo notices it as soon as one key is seen     *)
(* twice with different results.                                             *)
EXTENDS Calls, Json
CONSTANT NB, NX, NL, NGR, NP, SIDES, LEAK, DEPTH, HISTORY
VARIABLES params, lists, used, memo, ok, hist
vars == <<params, lists, used, memo, ok, hist>>
Init == params = [l \in 1..NL |-> [g \in 1..2 |-> 0]] /\ lists = [side \in 1..2 |-> [j \in 1..NGR |-> 0]]
        /\ used = [l \in 1..NL |-> [o \in 1..NGR |-> -1]] /\ memo = <<>> /\ ok = TRUE /\ hist = <<>>
\* batch: sequence of <<contents of channel group 1, contents of channel group 2>>
Batches == UNION {[1..n -> (1..NX) \X (1..NX)] : n \in 1..NB}
F(b, n, g, p, o, v) == << b[n][g], p[g], o, v, IF LEAK = "neighbours" THEN Len(b) + p[3 - g] ELSE 0 >>
Content(side, j) == << j, lists[side][j] >>
Note(r) == hist' = IF HISTORY THEN Append(hist, r) ELSE hist
Call(l, b, i, o) ==
  LET ks == {<<n, g>> : n \in 1..Len(b), g \in 1..2}
      key(x) == Key(l, x[2], params[l][x[2]], b[x[1]][x[2]], Content(1, i), Content(2, o))
      v == IF LEAK = "stale" /\ used[l][o] >= 0 THEN used[l][o] ELSE lists[2][o]
      out(x) == F(b, x[1], x[2], params[l], o, << lists[1][i], v >>)
  IN /\ ok' = (ok /\ \A x \in ks : (Known(memo, key(x)) => memo[key(x)] = out(x)) /\ \A y \in ks : key(x) = key(y) => out(x) = out(y))
     /\ memo' = IF HISTORY THEN memo
                ELSE [k \in DOMAIN memo \cup {key(x) : x \in ks} |->
                        IF k \in DOMAIN memo THEN memo[k] ELSE out(CHOOSE x \in ks : key(x) = k)]
     /\ used' = IF LEAK = "stale" THEN [used EXCEPT ![l][o] = v] ELSE used
     /\ UNCHANGED <<params, lists>>
     /\ Note([op |-> "call", l |-> l, b |-> b, i |-> i, o |-> o, g |-> 0])
Rnd(T) == IF HISTORY THEN {RandomElement(T)} ELSE T
Next == \/ \E l \in Rnd(1..NL), b \in Rnd(Batches), i \in Rnd(1..NGR), o \in Rnd(1..NGR) : Call(l, b, i, o)
        \/ \E l \in Rnd(1..NL), g \in Rnd(1..2) : \E v \in IF HISTORY THEN {params[l][g] + 1} ELSE 0..NP :
             /\ params' = [params EXCEPT ![l][g] = v] /\ UNCHANGED <<lists, used, memo, ok>>
             /\ Note([op |-> "edit", l |-> l, b |-> <<>>, i |-> 0, o |-> 0, g |-> g])
        \/ \E side \in Rnd(1..2), j \in Rnd(1..NGR) : \E v \in IF HISTORY THEN {lists[side][j] + 1} ELSE 0..NP :
             /\ lists' = [lists EXCEPT ![side][j] = v] /\ UNCHANGED <<params, used, memo, ok>>
             /\ side \in SIDES
             /\ Note([op |-> "relist", l |-> side, b |-> <<>>, i |-> j, o |-> j, g |-> 0])
        \* all lists replaced by others with the same contents
        \/ LEAK = "stale" /\ used' = [l \in 1..NL |-> [o \in 1..NGR |-> -1]] /\ UNCHANGED <<params, lists, memo, ok, hist>>
        \/ HISTORY /\ \E l \in Rnd(1..NL), b \in Rnd(Batches), w \in Rnd({"permuted", "backward", "train", "eval", "fresh"}) :
             UNCHANGED <<params, lists, used, memo, ok>> /\ Note([op |-> w, l |-> l, b |-> b, i |-> 1, o |-> 1, g |-> 0])
Spec == Init /\ [][Next]_vars
Agree == ok
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

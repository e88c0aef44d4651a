------------------------------ MODULE MCGroups ------------------------------
(* Exhaustive check of the group laws on the register machine, and the       *)
(* source of the programs that are replayed on the real code.                *)
EXTENDS FiniteGroups, TLC, Json

CONSTANT GROUPS, DEPTH, HISTORY

VARIABLES st, init, hist
vars == <<st, init, hist>>

Init == /\ \E g \in GROUPS : \E x \in Elements(g) : \E y \in Elements(g) : \E z \in {x, One(g)} :
             st = [g |-> g, r |-> <<x, y, z>>]
        /\ init = IF HISTORY THEN st ELSE <<>>
        /\ hist = <<>>
Next == \E act \in Acts :
          /\ st' = Apply(st, act)
          /\ hist' = IF HISTORY THEN Append(hist, act) ELSE hist
          /\ UNCHANGED init
Spec == Init /\ [][Next]_vars

Closed == \A i \in 1..3 : st.r[i] \in Elements(st.g)
Laws == LET g == st.g
            x == st.r[1]
            y == st.r[2]
            z == st.r[3]
        IN /\ GMul(g, x, GMul(g, y, z)) = GMul(g, GMul(g, x, y), z)
           /\ GMul(g, x, GInv(g, x)) = One(g)
           /\ GMul(g, GInv(g, x), x) = One(g)
           /\ GMul(g, One(g), x) = x /\ GMul(g, x, One(g)) = x
           /\ GDet(g, GMul(g, x, y)) = GDet(g, x) * GDet(g, y)
           /\ GInv(g, GMul(g, x, y)) = GMul(g, GInv(g, y), GInv(g, x))

Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson([init |-> init, acts |-> hist])>>))
=============================================================================

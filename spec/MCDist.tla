------------------------------- MODULE MCDist -------------------------------
(* Distances on finite groups: two elements are moved about together by      *)
(* multiplication from either side, swapped, and represented differently;    *)
(* their distance never changes.                                             *)
EXTENDS FiniteGroups, TLC
CONSTANT GROUPS
VARIABLES g, a, b, d
vars == <<g, a, b, d>>

IAbs(i) == IF i < 0 THEN -i ELSE i
\* planar: number of steps of 1/N turn; spatial: half angle in units of pi / 12
Rel(gr, x, y) == GMul(gr, GInv(gr, x), y)
Dist(gr, x, y) == LET r == Rel(gr, x, y) IN
   IF gr = "so2" THEN (IF r[1] <= N - r[1] THEN r[1] ELSE N - r[1])
   ELSE LET tr == r[1] + r[5] + r[9]
        IN CASE tr = 3 -> 0 [] tr = 1 -> 3 [] tr = 0 -> 4 [] tr = -1 -> 6

Init == /\ g \in GROUPS /\ a \in Elements(g) /\ b \in Elements(g) /\ d = Dist(g, a, b)
Next == \/ \E x \in Elements(g) : a' = GMul(g, x, a) /\ b' = GMul(g, x, b) /\ UNCHANGED <<g, d>>
        \/ \E x \in Elements(g) : a' = GMul(g, a, x) /\ b' = GMul(g, b, x) /\ UNCHANGED <<g, d>>
        \/ a' = b /\ b' = a /\ UNCHANGED <<g, d>>
        \/ a' = GInv(g, a) /\ b' = GInv(g, b) /\ UNCHANGED <<g, d>>
Spec == Init /\ [][Next]_vars
Invariant == Dist(g, a, b) = d
Zero == (d = 0) <=> (a = b)
Triangle == \A c \in Elements(g) : Dist(g, a, b) <= Dist(g, a, c) + Dist(g, c, b)
=============================================================================

------------------------------ MODULE MCNamed -------------------------------
(* The named rotation groups, exactly.  Quaternion components are            *)
(* (a + b r) / 2 with r the square root of two (octahedral) or the golden    *)
(* ratio (icosahedral).  A walk on the Cayley graph of each group's          *)
(* generators reaches exactly the group.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES name, x
vars == <<name, x>>

\* Components <<a, b>>; r * r = P r + Q.
Pof(g) == IF g = "icosahedral" THEN 1 ELSE 0
Qof(g) == IF g = "icosahedral" THEN 1 ELSE 2
Add(u, v) == << u[1] + v[1], u[2] + v[2] >>
Neg(u) == << -u[1], -u[2] >>
Times(g, u, v) == << u[1]*v[1] + Qof(g)*u[2]*v[2], u[1]*v[2] + u[2]*v[1] + Pof(g)*u[2]*v[2] >>
Half(u) == << u[1] \div 2, u[2] \div 2 >>
Sum4(a, b, c, d) == Half(Add(Add(a, b), Add(c, d)))
\* product of two quaternions given in halves: divide by two once more
QM(g, p, q) == LET m(i, j) == Times(g, p[i], q[j]) IN
  << Sum4(m(1,1), Neg(m(2,2)), Neg(m(3,3)), Neg(m(4,4))),
     Sum4(m(1,2), m(2,1), m(3,4), Neg(m(4,3))),
     Sum4(m(1,3), Neg(m(2,4)), m(3,1), m(4,2)),
     Sum4(m(1,4), m(2,3), Neg(m(3,2)), m(4,1)) >>
Z == <<0, 0>>
One == << <<2, 0>>, Z, Z, Z >>
H == <<1, 0>>
NegQ(q) == [i \in 1..4 |-> Neg(q[i])]
\* one representative of q and -q
Lt(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])
Canon(q) == LET f == CHOOSE i \in 1..4 : q[i] # Z /\ \A j \in 1..(i - 1) : q[j] = Z
            IN IF Lt(q[f], Z) THEN NegQ(q) ELSE q
Gens(g) == CASE g = "identity" -> {One}
             [] g = "klein" -> {<<Z, <<2,0>>, Z, Z>>, <<Z, Z, <<2,0>>, Z>>}
             [] g = "tetrahedral" -> {<<H, H, H, H>>, <<Z, <<2,0>>, Z, Z>>}
             [] g = "octahedral" -> {<<H, H, H, H>>, << <<0,1>>, <<0,1>>, Z, Z >>}
             \* golden ratio phi: (phi, 1, phi - 1, 0) / 2
             [] g = "icosahedral" -> {<<H, H, H, H>>, << <<0,1>>, H, <<-1,1>>, Z >>}
Order(g) == CASE g = "identity" -> 1 [] g = "klein" -> 4 [] g = "tetrahedral" -> 12
              [] g = "octahedral" -> 24 [] g = "icosahedral" -> 60

Init == /\ name \in {"identity", "klein", "tetrahedral", "octahedral", "icosahedral"}
        /\ x = One
Next == \E s \in Gens(name) : x' = Canon(QM(name, s, x)) /\ UNCHANGED name
Spec == Init /\ [][Next]_vars

\* The order of an element is bounded by its group.
RECURSIVE PowQ(_, _, _)
PowQ(g, q, k) == IF k = 0 THEN One ELSE QM(g, q, PowQ(g, q, k - 1))
OrderOf(g, q) == CHOOSE k \in 1..5 : Canon(PowQ(g, q, k)) = One /\ \A j \in 1..(k - 1) : Canon(PowQ(g, q, j)) # One
Orders(g) == CASE g = "identity" -> {1} [] g = "klein" -> {1, 2} [] g = "tetrahedral" -> {1, 2, 3}
               [] g = "octahedral" -> {1, 2, 3, 4} [] g = "icosahedral" -> {1, 2, 3, 5}
Finite == OrderOf(name, x) \in Orders(name)
\* 1 + 4 + 12 + 24 + 60 elements in total
AllReached == TLCGet("stats").distinct = 101
=============================================================================

------------------------------ MODULE MCParam -------------------------------
(* Conversions between parameterizations of the 24 rotations of the cube,    *)
(* exactly: Euler angles in quarter turns, quaternions with doubled integer  *)
(* or root-two components <<n, root>> up to sign, signed permutation         *)
(* matrices.  A conversion may return any representative that denotes the    *)
(* same rotation (gimbal lock leaves four Euler triples, quaternions two     *)
(* signs); whatever is chosen along the way, the rotation stays the same.    *)
EXTENDS FiniteGroups, TLC, Json
CONSTANT DEPTH, HISTORY

VARIABLES kind, val, start, hist
vars == <<kind, val, start, hist>>

Ry90 == <<0,0,1, 0,1,0, -1,0,0>>
Rz90 == <<0,-1,0, 1,0,0, 0,0,1>>
One9 == <<1,0,0,0,1,0,0,0,1>>
RECURSIVE Pow(_, _)
Pow(A, n) == IF n = 0 THEN One9 ELSE IMatMul(A, Pow(A, n - 1))
Eul(g) == IMatMul(Pow(Rz90, g[3]), IMatMul(Pow(Ry90, g[2]), Pow(Rz90, g[1])))
Eulers == (0..3) \X (0..3) \X (0..3)
EulOf == [A \in Octahedral |-> {g \in Eulers : Eul(g) = A}]

\* Integer quaternions of norm 1, 2 or 4; the rotation is the matrix divided by the norm.
Quats == {q \in (-1..1) \X (-1..1) \X (-1..1) \X (-1..1) :
            q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4] \in {1, 2, 4}}
QM(q) == LET n == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
             p(i, j) == q[i] * q[j]
         IN << (p(1,1)+p(2,2)-p(3,3)-p(4,4)) \div n, (2*(p(2,3)-p(1,4))) \div n, (2*(p(2,4)+p(1,3))) \div n,
               (2*(p(2,3)+p(1,4))) \div n, (p(1,1)-p(2,2)+p(3,3)-p(4,4)) \div n, (2*(p(3,4)-p(1,2))) \div n,
               (2*(p(2,4)-p(1,3))) \div n, (2*(p(3,4)+p(1,2))) \div n, (p(1,1)-p(2,2)-p(3,3)+p(4,4)) \div n >>
QOf == [A \in Octahedral |-> {q \in Quats : QM(q) = A}]

Denotes(k, v) == CASE k = "so3m" -> v [] k = "euler" -> Eul(v) [] k = "quat" -> QM(v)
Reps(k, A) == CASE k = "so3m" -> {A} [] k = "euler" -> EulOf[A] [] k = "quat" -> QOf[A]
To(k) == CASE k = "so3m" -> {"euler", "quat"} [] k = "euler" -> {"so3m", "quat"} [] k = "quat" -> {"so3m", "euler"}

Init == /\ start \in Octahedral
        /\ kind \in {"so3m", "euler", "quat"}
        /\ val \in Reps(kind, start)
        /\ hist = IF HISTORY THEN << kind >> ELSE <<>>
Convert(k) == /\ k \in To(kind)
              /\ kind' = k
              /\ val' \in Reps(k, Denotes(kind, val))
              /\ hist' = IF HISTORY THEN Append(hist, k) ELSE hist
              /\ UNCHANGED start
Next == \E k \in {"so3m", "euler", "quat"} : Convert(k)
Spec == Init /\ [][Next]_vars

SameRotation == Denotes(kind, val) = start
\* Every rotation has a representative in every parameterization; a gimbal lock is
\* exactly the case of more than two Euler triples.
Total == \A A \in Octahedral : /\ EulOf[A] # {} /\ Cardinality(QOf[A]) = 2
                               /\ (Cardinality(EulOf[A]) = 4) <=> (A[9] # 0)
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson([start |-> start, path |-> hist])>>))
=============================================================================

------------------------------ MODULE MCAction ------------------------------
(* A vector moved again and again by group elements: wherever it is, it is   *)
(* where the product of the elements applied so far takes the start, and the *)
(* inverse of that product takes it back.  Lengths never change and the      *)
(* orientation of a frame is the determinant.                                *)
EXTENDS FiniteGroups, TLC, Json

CONSTANT GROUPS, DEPTH, HISTORY, COORD

VARIABLES g, vs, v0, prod, hist
vars == <<g, vs, v0, prod, hist>>

Dim(gr) == IF gr \in {"so2", "o2"} THEN 2 ELSE 3
IMat(gr, x) ==
  LET quarter(k) == CASE k % 4 = 0 -> <<1, 0, 0, 1>> [] k % 4 = 1 -> <<0, -1, 1, 0>>
                      [] k % 4 = 2 -> <<-1, 0, 0, -1>> [] k % 4 = 3 -> <<0, 1, -1, 0>>
  IN CASE gr = "so2" -> quarter(x[1])
       [] gr = "o2" -> [i \in 1..4 |-> x[1] * quarter(x[2])[i]]
       [] gr = "so3" -> x
       [] gr = "o3" -> [i \in 1..9 |-> x[1] * x[i + 1]]
IApply(gr, x, v) == LET n == Dim(gr)
                        A == IMat(gr, x)
                    IN IF n = 2 THEN << A[1]*v[1] + A[2]*v[2], A[3]*v[1] + A[4]*v[2] >>
                       ELSE << A[1]*v[1] + A[2]*v[2] + A[3]*v[3], A[4]*v[1] + A[5]*v[2] + A[6]*v[3],
                               A[7]*v[1] + A[8]*v[2] + A[9]*v[3] >>
Norm2(v) == IF Len(v) = 2 THEN v[1]*v[1] + v[2]*v[2] ELSE v[1]*v[1] + v[2]*v[2] + v[3]*v[3]

Init == /\ g \in GROUPS
        /\ v0 \in [1..Dim(g) -> COORD]
        /\ vs = v0
        /\ prod = One(g)
        /\ hist = <<>>
Next == \E x \in Elements(g) :
           /\ vs' = IApply(g, x, vs)
           /\ prod' = GMul(g, x, prod)
           /\ hist' = IF HISTORY THEN Append(hist, x) ELSE hist
           /\ UNCHANGED <<g, v0>>
Spec == Init /\ [][Next]_vars

Homomorphism == vs = IApply(g, prod, v0)
Undone == IApply(g, GInv(g, prod), vs) = v0
Isometry == Norm2(vs) = Norm2(v0)
\* In odd dimension minus the identity reverses orientation, in the plane it does not:
\* the planar coefficient -1 of this library acts as a half turn (known finding).
Orientation == LET A == IMat(g, prod) IN
                 CASE g = "so2" -> A[1]*A[4] - A[2]*A[3] = 1
                   [] g = "o2" -> A[1]*A[4] - A[2]*A[3] = 1
                   [] OTHER -> IDet3(A) = GDet(g, prod)
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson([g |-> g, acts |-> hist])>>))
=============================================================================

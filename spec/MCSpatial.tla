------------------------------ MODULE MCSpatial ------------------------------
(* Reference grids and masks of every size, moved about by the symmetries of *)
(* the lattice.                                                              *)
EXTENDS Spatial, Json
CONSTANT MaxN2, MaxN3, DEPTH, HISTORY
VARIABLES n, dim, mask, grid, hist
vars == <<n, dim, mask, grid, hist>>
IdP(d) == [a \in 1..d |-> a]
Init == /\ dim \in {2, 3}
        /\ n \in 1..(IF dim = 2 THEN MaxN2 ELSE MaxN3)
        /\ mask = Mask(n, dim)
        /\ grid = IF HISTORY THEN {} ELSE {CentreVec(n, dim, p) : p \in 1..Pow(n, dim)}
        /\ hist = <<>>
Move(pi, sg) ==
  /\ mask' = [p \in 1..Pow(n, dim) |-> mask[SymCell(n, dim, pi, sg, p)]]
  /\ grid' = {SymAct(pi, sg, v) : v \in grid}
  /\ hist' = IF HISTORY THEN Append(hist, [pi |-> pi, sg |-> sg]) ELSE <<>>
  /\ UNCHANGED <<n, dim>>
Next == \E pi \in Perms(dim), sg \in Signs(dim) : Move(pi, sg)
Spec == Init /\ [][Next]_vars

Symmetric == /\ mask = Mask(n, dim)
             /\ HISTORY \/ grid = {CentreVec(n, dim, p) : p \in 1..Pow(n, dim)}
Covers == HISTORY \/
          /\ Cardinality(grid) = Pow(n, dim)
          /\ \A v \in grid : \A a \in 1..dim : Abs(v[a]) <= n - 1
          /\ \A a \in 1..dim : {v[a] : v \in grid} = {Ax(n, i) : i \in 0..(n - 1)}
Centred == (~HISTORY /\ n % 2 = 1) => [a \in 1..dim |-> 0] \in grid
MaskShape == /\ n % 2 = 1 => mask[(Pow(n, dim) + 1) \div 2] = 1
             /\ n > 1 => mask[1] = 0 /\ mask[Pow(n, dim)] = 0
\* closer to the centre means kept as well
MaskBall == \A p, r \in 1..Pow(n, dim) :
              SumSq(CentreVec(n, dim, p)) <= SumSq(CentreVec(n, dim, r)) /\ mask[r] = 1 => mask[p] = 1
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson([n |-> n, dim |-> dim, h |-> hist])>>))
=============================================================================

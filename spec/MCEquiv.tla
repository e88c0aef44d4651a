------------------------------ MODULE MCEquiv ------------------------------
(* Group convolution on a small torus, for the symmetries of the square       *)
(* lattice: moving the input together with the grids moves the output.        *)
(* Signals and kernels are points (everything is linear in both): the input   *)
(* is 1 at one cell of one input element, the kernel is 1 at one cell of one  *)
(* group element.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L, Reflections, NI, NO, DEPTH, HISTORY
VARIABLES x, kern, ins, outs, g, t, wo, base, hist
vars == <<x, kern, ins, outs, g, t, wo, base, hist>>

\* symmetries of the square as matrices <<a, b, c, d>>
Rot == { <<1,0,0,1>>, <<0,-1,1,0>>, <<-1,0,0,-1>>, <<0,1,-1,0>> }
G == IF Reflections THEN Rot \cup { <<1,0,0,-1>>, <<-1,0,0,1>>, <<0,1,1,0>>, <<0,-1,-1,0>> } ELSE Rot
Mul(a, b) == << a[1]*b[1] + a[2]*b[3], a[1]*b[2] + a[2]*b[4], a[3]*b[1] + a[4]*b[3], a[3]*b[2] + a[4]*b[4] >>
Inv(a) == CHOOSE b \in G : Mul(a, b) = <<1,0,0,1>>
Det(a) == a[1]*a[4] - a[2]*a[3]
Act(a, v) == << a[1]*v[1] + a[2]*v[2], a[3]*v[1] + a[4]*v[2] >>
Cells == (0..(L-1)) \X (0..(L-1))
Taps == (-1..1) \X (-1..1)
Add(p, c) == << (p[1] + c[1]) % L, (p[2] + c[2]) % L >>
Els == <<<<1,0,0,1>>, <<0,-1,1,0>>, <<-1,0,0,-1>>, <<0,1,-1,0>>>>

\* x = [cell, element]; the kernel between i and h at tap c
K(h, i, c) == IF Mul(Inv(h), i) = kern.r /\ Act(Inv(h), c) = kern.c THEN Det(h) ELSE 0
Signal(j, p) == IF x.cell = p /\ x.el = j THEN 1 ELSE 0
Y(h, p) == LET terms == {<<j, c>> \in (1..Len(ins)) \X Taps : Signal(j, Add(p, c)) = 1}
           IN IF terms = {} THEN 0 ELSE LET jc == CHOOSE y \in terms : TRUE IN K(h, ins[jc[1]], jc[2])
Out == [o \in 1..Len(outs) |-> [p \in Cells |-> Y(outs[o], p)]]

Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Acts == [op : {"sym"}, i : 1..48, j : {0}] \cup [op : {"swapin"}, i : 1..NI, j : 1..NI] \cup [op : {"swapout"}, i : 1..NO, j : 1..NO]
        \cup [op : {"shift"}, i : 1..3, j : 1..(L-1)]
Init == /\ x \in [cell : {<<0,0>>, <<1,2>>}, el : {1}]
        /\ IF HISTORY THEN kern = [r |-> <<1,0,0,1>>, c |-> <<0,0>>] ELSE kern \in [r : G, c : Taps]
        /\ ins = SubSeq(Els, 1, NI) /\ outs = SubSeq(Els, 1, NO)
        /\ g = <<1,0,0,1>> /\ t = <<0,0>>
        /\ wo = [o \in 1..NO |-> o]
        /\ base = IF HISTORY THEN <<>> ELSE Out
        /\ hist = <<>>
Do(a) ==
  CASE a.op = "sym" -> \E h \in G :
         /\ HISTORY => h = <<1,0,0,1>>
         /\ x' = [x EXCEPT !.cell = Add(Act(h, x.cell), <<0,0>>)]
         /\ ins' = [i \in 1..NI |-> Mul(h, ins[i])] /\ outs' = [i \in 1..NO |-> Mul(h, outs[i])]
         /\ g' = Mul(h, g) /\ t' = Add(Act(h, t), <<0,0>>)
         /\ UNCHANGED wo
    [] a.op = "swapin" -> /\ a.i < a.j /\ ins' = Swap(ins, a.i, a.j)
                          /\ x' = [x EXCEPT !.el = IF @ = a.i THEN a.j ELSE IF @ = a.j THEN a.i ELSE @]
                          /\ UNCHANGED <<outs, g, t, wo>>
    [] a.op = "swapout" -> /\ a.i < a.j /\ outs' = Swap(outs, a.i, a.j) /\ wo' = Swap(wo, a.i, a.j) /\ UNCHANGED <<ins, x, g, t>>
    [] a.op = "shift" -> LET d == IF a.i = 1 THEN <<a.j, 0>> ELSE <<0, a.j>>
                         IN /\ x' = [x EXCEPT !.cell = Add(@, d)] /\ t' = Add(t, d) /\ UNCHANGED <<ins, outs, g, wo>>
Next == /\ \E a \in Acts : /\ HISTORY \/ (a.op = "sym" => a.i = 1)
                           /\ Do(a)
                           /\ hist' = IF HISTORY THEN Append(hist, a) ELSE hist
        /\ UNCHANGED <<kern, base>>
Spec == Init /\ [][Next]_vars
\* the output is the first one, moved: cell p of element o comes from the cell it was moved from
Equivariant == LET y == Out IN
  \A o \in 1..NO, p \in Cells :
     LET p0 == Add(Act(Inv(g), << p[1] - t[1], p[2] - t[2] >>), <<0,0>>)
     IN y[o][p] = Det(g) * base[wo[o]][p0]
\* when the elements are a group, pooling over elements and cells does not see the symmetry
Pooled == (NO = Cardinality(G) /\ Det(g) = 1) =>
  Cardinality({<<o, p>> \in (1..NO) \X Cells : Out[o][p] # 0}) = Cardinality({<<o, p>> \in (1..NO) \X Cells : base[o][p] # 0})
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

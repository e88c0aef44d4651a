----------------------------- MODULE MCGradient -----------------------------
(* Reverse differentiation of a separable group convolution on one axis as a  *)
(* program: forward through mixing of the input elements, correlation with the *)
(* moved kernel (flipped for the second element), mask, determinant and bias;  *)
(* then backward through the transposes.  What arrives is compared with the    *)
(* differences of the loss, which are exact because the output is linear in    *)
(* each argument separately.                                                  *)
EXTENDS Gradients
CONSTANT MaxL, MaxK
VALS == IF MaxK < 3 THEN {0, -2} ELSE {0, 1, -2}
VARIABLES g, T, pc, x, wh, ws, b, c, mix, ker, y, gb, gk, gws, gm, gwh, gx
vars == <<g, T, pc, x, wh, ws, b, c, mix, ker, y, gb, gk, gws, gm, gwh, gx>>
Geos == {q \in [L : 1..MaxL, k : 1..MaxK, s : 1..2, d : 1..2, pl : 0..1, pr : 0..1, mode : {"zeros", "replicate", "circular", "reflect"}] :
           CanPad(q.mode, q.L, q.pl, q.pr) /\ OutSize(q.L, q.k, q.s, q.d, q.pl, q.pr) >= 1}
Flip(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
MaskOf(k) == [i \in 1..k |-> IF k = 3 /\ i = 1 THEN 0 ELSE 1]
Masked(v) == [i \in 1..Len(v) |-> MaskOf(Len(v))[i] * v[i]]
\* two output elements o; the second flips the kernel and has determinant -1; two input elements i
Move(o, w) == IF o = 1 THEN Masked(w) ELSE [i \in 1..Len(w) |-> -Masked(Flip(w))[i]]
MoveT(o, w) == IF o = 1 THEN Masked(w) ELSE [i \in 1..Len(w) |-> -Flip(Masked(w))[i]]
\* the whole function, for reference
Out(X, H, W, B, o) == LET m == [a \in 1..g.L |-> H[o][1] * X[1][a] + H[o][2] * X[2][a]]
                          w == Move(o, W)
                      IN [p \in 1..Len(T) |-> Corr(T[p], w, m) + B]
Loss(X, H, W, B) == SumFn(2, LAMBDA o : LET out == Out(X, H, W, B, o) IN SumFn(Len(T), LAMBDA p : c[o][p] * out[p]))

Some(n) == {v \in [1..n -> VALS] : \E i \in 1..n : v[i] # 0}
Init == /\ g \in Geos /\ pc = "mix" /\ T = Table(<<g>>)
        /\ x \in {<<u, Flip(u)>> : u \in Some(g.L)}
        /\ wh \in { << <<1, 2>>, <<-1, 1>> >>, << <<0, 1>>, <<2, 0>> >> }
        /\ ws \in Some(g.k) /\ b = 1
        /\ c \in { << [p \in 1..Len(Table(<<g>>)) |-> p], [p \in 1..Len(Table(<<g>>)) |-> 2 - p] >> }
        /\ mix = <<>> /\ ker = <<>> /\ y = <<>> /\ gb = 0 /\ gk = <<>> /\ gws = <<>> /\ gm = <<>> /\ gwh = <<>> /\ gx = <<>>
Go(a, z) == pc = a /\ pc' = z /\ UNCHANGED <<g, T, x, wh, ws, b, c>>
Next ==
  \/ Go("mix", "ker") /\ mix' = [o \in 1..2 |-> [a \in 1..g.L |-> wh[o][1] * x[1][a] + wh[o][2] * x[2][a]]]
     /\ UNCHANGED <<ker, y, gb, gk, gws, gm, gwh, gx>>
  \/ Go("ker", "out") /\ ker' = [o \in 1..2 |-> Move(o, ws)] /\ UNCHANGED <<mix, y, gb, gk, gws, gm, gwh, gx>>
  \/ Go("out", "back") /\ y' = [o \in 1..2 |-> [p \in 1..Len(T) |-> Corr(T[p], ker[o], mix[o]) + b]] /\ UNCHANGED <<mix, ker, gb, gk, gws, gm, gwh, gx>>
  \/ Go("back", "kernel") /\ gb' = SumFn(2, LAMBDA o : SumSeq(c[o])) /\ gk' = [o \in 1..2 |-> ByKernel(T, mix[o], c[o])]
     /\ gm' = [o \in 1..2 |-> ByInput(Met(T, g.L), ker[o], c[o])] /\ UNCHANGED <<mix, ker, y, gws, gwh, gx>>
  \/ Go("kernel", "input") /\ gws' = AddSeq(MoveT(1, gk[1]), MoveT(2, gk[2])) /\ UNCHANGED <<mix, ker, y, gb, gk, gm, gwh, gx>>
  \/ Go("input", "done") /\ gwh' = [o \in 1..2 |-> [i \in 1..2 |-> SumFn(g.L, LAMBDA a : gm[o][a] * x[i][a])]]
     /\ gx' = [i \in 1..2 |-> [a \in 1..g.L |-> wh[1][i] * gm[1][a] + wh[2][i] * gm[2][a]]] /\ UNCHANGED <<mix, ker, y, gb, gk, gws, gm>>
Spec == Init /\ [][Next]_vars

Forward == pc \notin {"mix", "ker", "out"} => \A o \in 1..2 : y[o] = Out(x, wh, ws, b, o)
Base == Loss(x, wh, ws, b)
Exact == pc = "done" =>
  LET base == Base
  IN /\ gb = Loss(x, wh, ws, b + 1) - base
     /\ \A k \in 1..g.k : gws[k] = Loss(x, wh, [ws EXCEPT ![k] = @ + 1], b) - base
     /\ \A o, i \in 1..2 : gwh[o][i] = Loss(x, [wh EXCEPT ![o][i] = @ + 1], ws, b) - base
     /\ \A i \in 1..2, a \in 1..g.L : gx[i][a] = Loss([x EXCEPT ![i][a] = @ + 1], wh, ws, b) - base
\* linear: twice the step, twice the difference
Linear == pc = "done" =>
  LET base == Base
  IN /\ \A k \in 1..g.k : 2 * gws[k] = Loss(x, wh, [ws EXCEPT ![k] = @ + 2], b) - base
     /\ \A i \in 1..2, a \in 1..g.L : -gx[i][a] = Loss([x EXCEPT ![i][a] = @ - 1], wh, ws, b) - base
=============================================================================

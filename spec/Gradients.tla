----------------------------- MODULE Gradients ------------------------------
(* Derivatives of the convolution formula.                                    *)
(*                                                                           *)
(* The output is linear in the input and in the kernel separately, affine in   *)
(* the bias.  Given the derivative c of a number by the output (cotangent),    *)
(* its derivative by                                                         *)
(*   an input cell a    is the sum of K[k] c[p] over the pairs (p, k) that meet a,*)
(*   a kernel cell k    is the sum of x[T[p][k]] c[p] over p,                  *)
(*   the bias           is the sum of c over samples, elements and positions.  *)
EXTENDS Conv

\* T: table of the geometry, n input cells
Met(T, n) ==
  FoldLeft(LAMBDA m, p : FoldLeft(LAMBDA z, k : IF T[p][k] = 0 THEN z ELSE [z EXCEPT ![T[p][k]] = Append(@, << p, k >>)], m, [k \in 1..Len(T[1]) |-> k]),
           [a \in 1..n |-> <<>>], [p \in 1..Len(T) |-> p])
ByInput(met, K, c) == TLCEval([a \in 1..Len(met) |-> FoldLeft(LAMBDA s, u : s + K[u[2]] * c[u[1]], 0, met[a])])
ByKernel(T, x, c) == TLCEval([k \in 1..Len(T[1]) |-> FoldLeft(LAMBDA s, p : IF T[p][k] = 0 \/ c[p] = 0 THEN s ELSE s + x[T[p][k]] * c[p], 0, [p \in 1..Len(T) |-> p])])
AddSeq(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
Zeros(n) == [i \in 1..n |-> 0]
\* sum of the sequences f(1), ..., f(m) of length n
SumSeqs(m, n, f(_)) == FoldLeft(LAMBDA s, i : AddSeq(s, f(i)), Zeros(n), [i \in 1..m |-> i])
=============================================================================

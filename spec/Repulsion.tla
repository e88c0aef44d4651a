----------------------------- MODULE Repulsion ------------------------------
(* The repulsion optimiser as gradient descent on the mean pairwise energy.   *)
(* With the squared Euclidean metric on transformed points a x, the          *)
(* normalised distance of points k and j is  t = a^2 |x_k - x_j|^2 / c  and    *)
(* the mean of e(t) over all ordered pairs has gradient                       *)
(*     4 a^2 / (c N (N - 1))  sum_j e'(t_kj) (x_k - x_j)                       *)
(* with respect to x_k.  A step subtracts step size times gradient, so that   *)
(* with F = -e' a point moves by                                             *)
(*     M sum_j F(t_kj) (x_k - x_j),   M = step size 4 a^2 / (c N (N - 1)).      *)
(* F(t): "neg" e = -t, F = 1; "negsq" e = -t^2, F = 2 t; "columb" e = t^(-k),  *)
(* F = k t^(-k-1).  All orders of the points are equal, and the sum of all     *)
(* points stays.                                                             *)
EXTENDS Integers, Sequences, FiniteSets

\* Exact, on integer points, for whole M and F: used by the model.
SqDist(x, y) == LET f[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE f[i - 1] + (x[i] - y[i]) * (x[i] - y[i]) IN f[Len(x)]
ForceOf(e, t) == CASE e = "neg" -> 1 [] e = "negsq" -> 2 * t
Push(P, M, e, k, d) ==
  LET f[j \in 0..Len(P)] == IF j = 0 THEN 0 ELSE f[j - 1] + ForceOf(e, SqDist(P[k], P[j])) * (P[k][d] - P[j][d])
  IN M * f[Len(P)]
OneStep(P, M, e) == [k \in 1..Len(P) |-> [d \in 1..Len(P[k]) |-> P[k][d] + Push(P, M, e, k, d)]]
RECURSIVE Steps(_, _, _, _)
Steps(P, M, e, n) == IF n = 0 THEN P ELSE Steps(OneStep(P, M, e), M, e, n - 1)

\* Stores of values and which store each handle of a caller refers to.  A run in
\* place writes the store of its argument and returns a handle to it; otherwise
\* the result is a new store.
RunOn(stores, refs, h, result, inplace) ==
  IF inplace THEN [stores |-> [stores EXCEPT ![refs[h]] = result], refs |-> Append(refs, refs[h])]
  ELSE [stores |-> Append(stores, result), refs |-> Append(refs, Len(stores) + 1)]
=============================================================================

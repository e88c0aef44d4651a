------------------------------ MODULE UserOps -------------------------------
(* Operations without any structure, supplied to kernels as if by a user, and *)
(* the transposes of those that are linear.                                   *)
EXTENDS Num

\* The operations, on elements flattened to vectors.
UInv(h) == [c \in 1..Len(h) |-> 3 - h[Len(h) + 1 - c]]
UMul(a, b) == [c \in 1..Len(a) |-> a[c] + 2 * b[c] + 1]
UAct(h, x) == [d \in 1..Len(x) |-> x[Len(x) + 1 - d] + d * SumSeq(h)]
UDot(a, b) == SumFn(Len(a), LAMBDA c : a[c] * b[c])
USampleH(g, rows, ref, shift) ==
  LET w == [r \in 1..Len(ref) |-> (UDot(g, ref[r]) % 3) - 1 + shift]
  IN [x \in 1..Len(rows[1]) |-> SumFn(Len(ref), LAMBDA r : w[r] * rows[r][x])]
USampleRn(w, pos, gain) ==
  [p \in 1..Len(w) |-> w[Len(w) + 1 - p] * ((SumFn(Len(pos[p]), LAMBDA d : d * pos[p][d]) % 3) - 1 + gain) + w[p]]
UDet(h) == << 1, 2, 4, -2 >>[(SumSeq(h) % 4) + 1]


-----------------------------------------------------------------------------
(* Transposes: given the derivative by the result, the derivative by the      *)
(* signal or kernel that was sampled.                                         *)
AtH(g, ref, shift) == [r \in 1..Len(ref) |-> (UDot(g, ref[r]) % 3) - 1 + shift]
AtRn(pos, gain) == [p \in 1..Len(pos) |-> (SumFn(Len(pos[p]), LAMBDA d : d * pos[p][d]) % 3) - 1 + gain]
BackRn(d, pos, gain) == LET f == TLCEval(AtRn(pos, gain))
                            n == Len(d)
                        IN [p \in 1..n |-> d[p] + d[n + 1 - p] * f[n + 1 - p]]
=============================================================================

---------------------------- MODULE Equivariance ----------------------------
(* How a symmetry of the lattice moves a feature map.                         *)
EXTENDS Kernels, Conv

\* The signed permutation <<pi, sg>> of the axes by which a group element acts on cells: axis a
\* of the moved map is axis pi[a] of the old one, reversed if sg[a] = -1.  Vectors of the
\* library list the axes in order in the plane and in reverse order in space.
ActMat(kd, h) == LET m == IF kd = "angle" THEN Rot2(h[2]) ELSE QMat(Tail(h)) IN [i \in 1..Len(m) |-> h[1] * m[i]]
Sym(kd, h) ==
  LET d == IF kd = "angle" THEN 2 ELSE 3
      m == ActMat(kd, h)
      ax(i) == IF d = 2 THEN i ELSE 4 - i
      at(a, b) == m[(ax(a) - 1) * d + ax(b)]
      pi == [a \in 1..d |-> CHOOSE b \in 1..d : Abs(at(a, b)) > S \div 2]
  IN [pi |-> pi, sg |-> [a \in 1..d |-> Sgn(at(a, pi[a]))]]
IsSym(kd, h) == LET d == IF kd = "angle" THEN 2 ELSE 3
                    m == ActMat(kd, h)
                IN \A i \in 1..(d * d) : \E v \in {0, S, -S} : Near(m[i], v, 5)

\* A table says for every cell of a map of shape sh which cell of the first map stands there.
Moved2(tb, sh, sy) ==
  LET sh2 == [a \in 1..Len(sh) |-> sh[sy.pi[a]]]
      from(p) == LET ix == Unflat(sh2, p - 1)
                     jx == [b \in 1..Len(sh) |-> LET a == CHOOSE a \in 1..Len(sh) : sy.pi[a] = b
                                                 IN IF sy.sg[a] = 1 THEN ix[a] ELSE sh[b] - 1 - ix[a]]
                 IN Flat(sh, jx) + 1
  IN [sh |-> sh2, tb |-> [p \in 1..Len(tb) |-> tb[from(p)]]]
Rolled(tb, sh, axis, by) ==
  [p \in 1..Len(tb) |-> LET ix == Unflat(sh, p - 1)
                            jx == [a \in 1..Len(sh) |-> IF a = axis THEN (ix[a] - by) % sh[a] ELSE ix[a]]
                        IN tb[Flat(sh, jx) + 1]]
=============================================================================

-------------------------------- MODULE Conv --------------------------------
(* Convolution geometry and the group convolution of given kernels.           *)
(*                                                                           *)
(* Geometry of one axis: size of the input L, kernel size k, stride s,        *)
(* dilation d, padding pl before and pr after, padding mode.                  *)
EXTENDS Num

\* Padding declared as an amount, or by name.
PadLeft(pad, k, d) == CASE pad = "same" -> (d * (k - 1)) \div 2 [] pad = "valid" -> 0
PadRight(pad, k, d) == CASE pad = "same" -> d * (k - 1) - (d * (k - 1)) \div 2 [] pad = "valid" -> 0
OutSize(L, k, s, d, pl, pr) == IF L + pl + pr < d * (k - 1) + 1 THEN 0 ELSE (L + pl + pr - d * (k - 1) - 1) \div s + 1

\* Which input position stands at position j of the padded axis (0-based; j < 0 and
\* j >= L are padding); -1 stands for zero.
At(mode, L, j) ==
  IF j >= 0 /\ j < L THEN j
  ELSE CASE mode = "zeros" -> -1
         [] mode = "replicate" -> IF j < 0 THEN 0 ELSE L - 1
         [] mode = "circular" -> j % L
         [] mode = "reflect" -> IF j < 0 THEN -j ELSE 2 * (L - 1) - j
\* What each mode can pad.
CanPad(mode, L, pl, pr) == CASE mode = "zeros" -> TRUE
                             [] mode = "replicate" -> L >= 1
                             [] mode = "circular" -> pl <= L /\ pr <= L
                             [] mode = "reflect" -> pl < L /\ pr < L
\* Input position that kernel position c meets at output position p.
Meets(g, p, c) == At(g.mode, g.L, p * g.s + c * g.d - g.pl)

\* Several axes: gs is a sequence of axis geometries.  Table[p][c]: input cell (1-based,
\* 0 for zero) that kernel cell c meets at output cell p.
OutShape(gs) == [a \in 1..Len(gs) |-> OutSize(gs[a].L, gs[a].k, gs[a].s, gs[a].d, gs[a].pl, gs[a].pr)]
InShape(gs) == [a \in 1..Len(gs) |-> gs[a].L]
KShape(gs) == [a \in 1..Len(gs) |-> gs[a].k]
Table(gs) ==
  LET os == OutShape(gs)
      ks == KShape(gs)
      axis == [a \in 1..Len(gs) |-> [p \in 0..(os[a] - 1) |-> [c \in 0..(ks[a] - 1) |-> Meets(gs[a], p, c)]]]
  IN [p \in 1..Size(os) |-> LET pi == Unflat(os, p - 1) IN
       [c \in 1..Size(ks) |-> LET ci == Unflat(ks, c - 1)
                                  ix == [a \in 1..Len(gs) |-> axis[a][pi[a]][ci[a]]]
                              IN IF \E a \in 1..Len(gs) : ix[a] = -1 THEN 0 ELSE Flat(InShape(gs), ix) + 1]]
\* Sum over the cells of one kernel at one output cell; row = table row, x = input cells.
Corr(row, w, x) == FoldLeft(LAMBDA a, c : IF row[c] = 0 \/ w[c] = 0 THEN a ELSE a + w[c] * x[row[c]], 0, [c \in 1..Len(row) |-> c])

-----------------------------------------------------------------------------
(* Group convolutions.  x[c][i]: cells of input channel c at input element i  *)
(* (lifting: i = 1), ipg input channels per channel group, opg output         *)
(* channels per channel group.                                                *)
InChannel(oc, ic, ipg, opg) == ((oc - 1) \div opg) * ipg + ic
\* Lifting: K[ic] cells.  Full: K[ic][i] cells.
LiftAt(row, K, x, oc, ipg, opg) == SumFn(ipg, LAMBDA ic : Corr(row, K[ic], x[InChannel(oc, ic, ipg, opg)][1]))
FullAt(row, K, x, oc, ipg, opg) ==
  SumFn(ipg, LAMBDA ic : SumFn(Len(K[1]), LAMBDA i : Corr(row, K[ic][i], x[InChannel(oc, ic, ipg, opg)][i])))
\* Separable: the kernel is the product KH[ic][i] * KS[cell].
Mixed(KH, x, oc, ipg, opg) ==
  LET n == Len(x[1][1])
  IN [p \in 1..n |-> SumFn(ipg, LAMBDA ic : SumFn(Len(KH[1]), LAMBDA i : KH[ic][i] * x[InChannel(oc, ic, ipg, opg)][i][p]))]
=============================================================================

------------------------------- MODULE Pooling -------------------------------
(* Ordinary pooling, one axis at a time.  An axis is a record                *)
(*   [L, k, s, p, d, ceil]  size, window, stride, padding, dilation and       *)
(*                          whether the number of windows is rounded up.      *)
EXTENDS Num

\* Number of windows.
PoolOut(a) ==
  LET room == a.L + 2 * a.p - a.d * (a.k - 1) - 1
      n == (IF a.ceil THEN room + a.s - 1 ELSE room) \div a.s + 1
  IN IF a.ceil /\ (n - 1) * a.s >= a.L + a.p THEN n - 1 ELSE n
\* Cells of window o (0-based).
Window(a, o) == {c \in {o * a.s - a.p + j * a.d : j \in 0..(a.k - 1)} : c >= 0 /\ c < a.L}
\* Cells of window o counting padding.
Span(a, o) == Min2(o * a.s - a.p + a.k, a.L + a.p) - (o * a.s - a.p)
\* Adaptive pooling: O windows that cover the axis.
AdaptWindow(L, O, o) == ((o * L) \div O)..(((o + 1) * L + O - 1) \div O - 1)

\* Products over axes: flat cells (from 1) of a map of shape sh.
RECURSIVE CellSet(_, _, _)
CellSet(sh, ws, i) == IF i = 0 THEN {0} ELSE {p * sh[i] + c : p \in CellSet(sh, ws, i - 1), c \in ws[i]}
FlatCells(sh, ws) == {p + 1 : p \in CellSet(sh, ws, Len(sh))}

MaxOver(v, C) == CHOOSE m \in {v[c] : c \in C} : \A c \in C : v[c] <= m
RECURSIVE SumOver(_, _)
SumOver(v, C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE IN v[c] + SumOver(v, C \ {c})
=============================================================================

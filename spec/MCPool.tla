------------------------------- MODULE MCPool -------------------------------
(* Pooling of a feature map with a group axis and one spatial axis: spatial   *)
(* pooling acts on every element by itself, so it commutes with reordering    *)
(* the elements and with pooling over them.                                  *)
EXTENDS Pooling
CONSTANT MaxL, MaxK, MaxS, MaxP, MaxD, NG, V, MAPS
VARIABLES x, w, ax
vars == <<x, w, ax>>

Axes == {a \in [L : 1..MaxL, k : 1..MaxK, s : 1..MaxS, p : 0..MaxP, d : 1..MaxD, ceil : BOOLEAN] :
           2 * a.p <= a.k /\ a.L + 2 * a.p - a.d * (a.k - 1) - 1 >= 0}
Outs(a) == 0..(PoolOut(a) - 1)

\* laws of windows
ASSUME \A a \in Axes :
  /\ PoolOut(a) >= 1
  \* every window starts inside, and without rounding up ends inside, the padded axis
  /\ \A o \in Outs(a) : o * a.s < a.L + a.p \/ ~a.ceil
  /\ ~a.ceil => \A o \in Outs(a) : o * a.s - a.p + a.d * (a.k - 1) <= a.L + a.p - 1
  \* there is no room for another one
  /\ ~a.ceil => PoolOut(a) * a.s - a.p + a.d * (a.k - 1) > a.L + a.p - 1
  /\ a.ceil => PoolOut(a) * a.s >= a.L + a.p \/ PoolOut(a) * a.s - a.p - a.s + a.d * (a.k - 1) >= a.L + a.p - 1
  /\ PoolOut(a) <= PoolOut([a EXCEPT !.ceil = TRUE])
  \* windows only count cells they have, and all of them without padding
  /\ a.d = 1 => \A o \in Outs(a) : Cardinality(Window(a, o)) <= Span(a, o) /\ Span(a, o) <= a.k
  /\ (a.d = 1 /\ a.p = 0 /\ ~a.ceil) => \A o \in Outs(a) : Cardinality(Window(a, o)) = a.k
  \* mirrored axes have mirrored windows when the windows fill the axis
  /\ ((a.L + 2 * a.p - a.d * (a.k - 1) - 1) % a.s = 0) =>
       \A o \in Outs(a) : {a.L - 1 - c : c \in Window(a, o)} = Window(a, PoolOut(a) - 1 - o)
ASSUME \A L \in 1..MaxL, O \in 1..MaxL :
  /\ UNION {AdaptWindow(L, O, o) : o \in 0..(O - 1)} = 0..(L - 1)
  /\ \A o \in 0..(O - 1) : /\ AdaptWindow(L, O, o) # {}
                           /\ {L - 1 - c : c \in AdaptWindow(L, O, o)} = AdaptWindow(L, O, O - 1 - o)
  /\ O = L => \A o \in 0..(O - 1) : AdaptWindow(L, O, o) = {o}

Init == /\ ax \in {a \in Axes : a.L = MaxL /\ a.d = 1 /\ MAPS}
        /\ x \in [1..NG -> [1..MaxL -> V]]
        /\ w = [i \in 1..NG |-> i]
\* reorder the elements
Next == \E i, j \in 1..NG : i < j /\ x' = [x EXCEPT ![i] = x[j], ![j] = x[i]] /\ w' = [w EXCEPT ![i] = w[j], ![j] = w[i]] /\ UNCHANGED ax
Spec == Init /\ [][Next]_vars
Pool(m) == [g \in 1..NG |-> [o \in Outs(ax) |-> MaxOver(m[g], {c + 1 : c \in Window(ax, o)})]]
GroupMax(m, I) == [c \in I |-> MaxOver([g \in 1..NG |-> m[g][c]], 1..NG)]
GroupSum(m, I) == [c \in I |-> SumOver([g \in 1..NG |-> m[g][c]], 1..NG)]
Unordered == LET back(m) == [g \in 1..NG |-> m[CHOOSE i \in 1..NG : w[i] = g]]
             IN /\ GroupMax(x, 1..MaxL) = GroupMax(back(x), 1..MaxL)
                /\ GroupSum(x, 1..MaxL) = GroupSum(back(x), 1..MaxL)
                /\ Pool(back(x)) = back(Pool(x))
Commutes == GroupMax(Pool(x), Outs(ax)) = [o \in Outs(ax) |-> MaxOver(GroupMax(x, 1..MaxL), {c + 1 : c \in Window(ax, o)})]
\* a pooled value is a value of its window
Within == \A g \in 1..NG, o \in Outs(ax) : \E c \in Window(ax, o) : Pool(x)[g][o] = x[g][c + 1]
=============================================================================

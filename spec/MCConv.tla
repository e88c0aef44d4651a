------------------------------- MODULE MCConv -------------------------------
(* Convolution geometries of one axis, changed one parameter at a time, as    *)
(* far as they are legal; and what any of them must satisfy.                  *)
EXTENDS Conv, Json
CONSTANT MaxL, MaxK, MaxS, MaxD, MaxP, DEPTH, HISTORY
VARIABLES g, hist
vars == <<g, hist>>
Modes == {"zeros", "replicate", "circular", "reflect"}
\* a declared geometry: pad is an amount or a name
Names == {"same", "valid"}
Left(x) == IF x.pad \in Names THEN PadLeft(x.pad, x.k, x.d) ELSE x.amount
Right(x) == IF x.pad \in Names THEN PadRight(x.pad, x.k, x.d) ELSE x.amount
Geo(x) == [L |-> x.L, k |-> x.k, s |-> x.s, d |-> x.d, pl |-> Left(x), pr |-> Right(x), mode |-> x.mode]
Out(x) == OutSize(x.L, x.k, x.s, x.d, Left(x), Right(x))
Legal(x) == /\ CanPad(x.mode, x.L, Left(x), Right(x))
            /\ x.pad = "same" => x.s = 1
            /\ Out(x) >= 1
            /\ x.pad # "amount" => x.amount = 0
All == [L : 1..MaxL, k : 1..MaxK, s : 1..MaxS, d : 1..MaxD, pad : {"amount", "same", "valid"}, amount : 0..MaxP, mode : Modes]
Init == /\ IF HISTORY THEN g = [L |-> 4, k |-> 3, s |-> 1, d |-> 1, pad |-> "amount", amount |-> 1, mode |-> "zeros"]
           ELSE g \in {x \in All : Legal(x)}
        /\ hist = <<g>>
Change == \/ \E v \in 1..MaxL : g' = [g EXCEPT !.L = v]
          \/ \E v \in 1..MaxK : g' = [g EXCEPT !.k = v]
          \/ \E v \in 1..MaxS : g' = [g EXCEPT !.s = v]
          \/ \E v \in 1..MaxD : g' = [g EXCEPT !.d = v]
          \/ \E v \in 0..MaxP : g' = [g EXCEPT !.pad = "amount", !.amount = v]
          \/ \E v \in Names : g' = [g EXCEPT !.pad = v, !.amount = 0]
          \/ \E v \in Modes : g' = [g EXCEPT !.mode = v]
Next == Change /\ Legal(g') /\ g' # g /\ hist' = IF HISTORY THEN Append(hist, g') ELSE <<g'>>
Spec == Init /\ [][Next]_vars

Same == g.pad = "same" => Out(g) = g.L
InRange == \A p \in 0..(Out(g) - 1), c \in 0..(g.k - 1) : Meets(Geo(g), p, c) \in -1..(g.L - 1)
\* the last output position is the last that fits
Maximal == LET span(p) == p * g.s + g.d * (g.k - 1)
           IN /\ span(Out(g) - 1) < g.L + Left(g) + Right(g)
              /\ span(Out(g)) >= g.L + Left(g) + Right(g)
\* neighbouring taps and outputs are dilation and stride apart, away from the border
Steps == \A p \in 0..(Out(g) - 1), c \in 0..(g.k - 1) :
           LET j == p * g.s + c * g.d - Left(g) IN (j >= 0 /\ j < g.L) => Meets(Geo(g), p, c) = j
\* a convolution after a pointwise operation is the convolution with the product kernel: padding
\* commutes with pointwise maps because every padded position is a copy or zero
Copies == \A p \in 0..(Out(g) - 1), c \in 0..(g.k - 1) : Meets(Geo(g), p, c) = -1 => g.mode = "zeros"
\* symmetric padding commutes with flipping the axis when the positions do
Flips == (Left(g) = Right(g) /\ (g.L + Left(g) + Right(g) - g.d * (g.k - 1) - 1) % g.s = 0) =>
           \A p \in 0..(Out(g) - 1), c \in 0..(g.k - 1) :
              LET a == Meets(Geo(g), p, c)
                  b == Meets(Geo(g), Out(g) - 1 - p, g.k - 1 - c)
              IN b = IF a = -1 THEN -1 ELSE g.L - 1 - a
\* several axes are one axis each
Axes == LET t == Table(<<Geo(g), Geo(g)>>)
        IN Len(t) = Out(g) * Out(g) /\ \A p \in 1..Len(t) : Len(t[p]) = g.k * g.k /\ \A c \in 1..Len(t[p]) : t[p][c] \in 0..(g.L * g.L)
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

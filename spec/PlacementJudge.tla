--------------------------- MODULE PlacementJudge ---------------------------
(* Recorded calls and lives of models against Placement.  A place is         *)
(* recorded as <<device, bits>>.                                             *)
EXTENDS TraceJudge, Placement, Num

At(x) == Place(x[1], x[2])
Places(xs) == {At(xs[i]) : i \in 1..Len(xs)}
AllAt(xs, p) == \A i \in 1..Len(xs) : At(xs[i]) = p
\* values at 10^4 of a call in single precision on the CPU and of the judged one
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : (a[i] = BADV /\ b[i] = BADV) \/ Near(a[i], b[i], 20 + Abs(b[i]) \div 500)
\* how far the result moves per change of the arguments, for a change far below
\* what single precision resolves, and for one far above (10^4)
Responds(small, big) == (small = BADV /\ big = BADV) \/ (small # BADV /\ big # BADV /\ small <= (2 * big) + 50 /\ big <= (2 * small) + 50)

TStInit == [def |-> 32, at |-> Place("none", 0), mask |-> {}]

\* a mask is an indicator: single precision, or that of the model
Slot(s, x) == LET p == At(<<x[2], x[3]>>) IN IF x[1] = "mask" THEN p.dev = s.at.dev /\ p.prec \in s.mask ELSE p = s.at
Alive(s, e) == <<
  << "the operation works", e.error = "" >>,
  << "parameters, grids and gradients stay together", \A i \in 1..Len(e.slots) : Slot(s, e.slots[i]) >> >>

Life(s, e) ==
  CASE e.op = "build" -> [s EXCEPT !.at = Place("cpu", s.def), !.mask = {32, s.def}]
    [] e.op = "move" -> [s EXCEPT !.at = Place(e.dev, s.at.prec)]
    [] e.op = "cast" -> [s EXCEPT !.at = Place(s.at.dev, e.prec), !.mask = {e.prec}]
    [] OTHER -> s

TStep(s, e) ==
  CASE e.op = "default" -> [st |-> [s EXCEPT !.def = e.prec], bad |-> {}]
    [] e.op = "make" -> [st |-> s, bad |-> Failing(<<
         << "the call works", e.error = "" >>,
         << "made on the requested device", \A i \in 1..Len(e.outs) : e.outs[i][1] = e.dev >>,
         << "made in the default precision", e.indicator \/ \A i \in 1..Len(e.outs) : e.outs[i][2] = s.def >>,
         << "the same elements as anywhere", e.same => Same(e.y, e.ref) >> >>)]
    [] e.op = "apply" -> [st |-> s, bad |-> Failing(<<
         << "the call works", e.error = "" >>,
         << "answers where its arguments are", AllAt(e.outs, Result(Places(e.args))) >>,
         << "the same numbers as in single precision on the CPU", Same(e.y, e.ref) >> >>)]
    [] e.op = "fine" -> [st |-> s, bad |-> Failing(<<
         << "resolves what double precision resolves", Responds(e.small, e.big) >> >>)]
    [] e.op = "exact" -> [st |-> s, bad |-> Failing(<<   \* residual of an identity at 10^12
         << "exact in double precision", \A i \in 1..Len(e.off) : Near(e.off[i], 0, 1000) >> >>)]
    [] e.op \in {"build", "move", "cast", "load", "train"} -> [st |-> Life(s, e), bad |-> Failing(Alive(Life(s, e), e))]
    [] e.op = "forward" -> [st |-> s, bad |-> Failing(Alive(s, e) \o <<
         << "features and grid where the layer is", AllAt(e.outs, s.at) >>,
         << "the same numbers as in single precision on the CPU", Same(e.y, e.ref) >> >>)]
=============================================================================

----------------------------- MODULE TraceJudge -----------------------------
(* Validation of traces recorded from the real code.                         *)
(*                                                                           *)
(* A trace file holds several traces one after another; all events of one    *)
(* trace carry the same number zt.  Step(st, e) is the specification's answer *)
(* to event e in abstract state st: the next abstract state and the set of   *)
(* clauses of the property that e contradicts.  An event is a step of the    *)
(* specification iff that set is empty.  Rejected events are reported with   *)
(* their clauses, and validation continues, so that one rejection does not   *)
(* hide the rest.                                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT StInit, Step(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)

VARIABLES l, st
vars == <<l, st>>

Init == l = 1 /\ st = StInit

\* A large request (many elements, queries, samples, channels, cells) is the small ones
\* it consists of: e.all are some portions of the answer, e.one the same asked alone.
Assembled(e) ==
  LET same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] <= e.tol /\ b[i] - a[i] <= e.tol /\ a[i] < 2000000000
  IN IF e.so # e.want THEN {"shape of the answer to a large request"}
     ELSE IF Len(e.all) = Len(e.one) /\ \A i \in 1..Len(e.all) : same(e.all[i], e.one[i]) THEN {}
     ELSE {"a large request is answered like its parts"}

Before == IF l > 1 /\ Trace[l].zt = Trace[l - 1].zt THEN st ELSE StInit

Next == /\ l <= NEvents
        /\ l' = l + 1
        /\ LET e == Trace[l]
               r == IF e.op = "exception" THEN [st |-> Before, bad |-> {"exception"}]
                    ELSE IF e.op = "part" THEN [st |-> Before, bad |-> Assembled(e)]
                    ELSE Step(Before, e)
           IN /\ st' = r.st
              /\ r.bad = {} \/ PrintT(<<"REJECT", l, r.bad>>)

Spec == Init /\ [][Next]_vars

Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================

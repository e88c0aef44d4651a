------------------------------ MODULE MCRandom ------------------------------
(* A program that seeds the generator, saves and restores its state, and     *)
(* runs operations in between.  The implementation draws by POLICY:          *)
(*   "stream"  from the generator                                            *)
(*   "reseed"  from the generator, which it seeds itself                     *)
(*   "own"     from a generator of its own, seeded with a constant           *)
(*   "foreign" from another source of randomness                             *)
EXTENDS Randomness, TLC, Json
CONSTANT SEEDS, POLICY, DEPTH, HISTORY
VARIABLES gen, hidden, saved, log, hist
vars == <<gen, hidden, saved, log, hist>>
Ops == {[op |-> 1, kind |-> "fixed"], [op |-> 2, kind |-> "random"], [op |-> 3, kind |-> "random"], [op |-> 4, kind |-> "any"]}
\* a state of the generator is its seed and what was drawn since
Start(k) == <<k>>
Note(r) == hist' = IF HISTORY THEN Append(hist, r) ELSE hist
Init == gen = Start(0) /\ hidden = 0 /\ saved = <<>> /\ log = <<>> /\ hist = <<>>
Draws(o) == o.kind = "random" \/ (o.kind = "any" /\ gen[1] = 1)
Do(o) ==
  LET from == CASE POLICY = "reseed" -> Start(7) [] POLICY = "own" -> Start(8) [] POLICY = "foreign" -> <<9, hidden>> [] OTHER -> gen
      after == IF ~Draws(o) THEN gen ELSE CASE POLICY = "reseed" -> Append(Start(7), o.op) [] POLICY \in {"own", "foreign"} -> gen [] OTHER -> Append(gen, o.op)
  IN /\ gen' = after
     /\ hidden' = IF POLICY = "foreign" THEN hidden + 1 ELSE hidden
     /\ log' = Append(log, [op |-> o.op, kind |-> o.kind, pre |-> gen, post |-> after, result |-> IF Draws(o) THEN <<o.op, from>> ELSE <<o.op>>])
Next ==
  \/ \E k \in SEEDS : gen' = Start(k) /\ UNCHANGED <<hidden, saved, log>> /\ Note([op |-> "seed", n |-> k])
  \/ saved' = gen /\ UNCHANGED <<gen, hidden, log>> /\ Note([op |-> "save", n |-> 0])
  \/ saved # <<>> /\ gen' = saved /\ UNCHANGED <<hidden, saved, log>> /\ Note([op |-> "restore", n |-> 0])
  \/ /\ HISTORY \/ Len(log) < DEPTH
     /\ \E o \in Ops : Do(o) /\ Note([op |-> "do", n |-> o.op])
     /\ UNCHANGED saved
Spec == Init /\ [][Next]_vars
Equal(a, b) == a = b
IsRepeatable == Repeatable(log, Equal)
IsContained == Contained(log)
IsMoving == Moves(log)
IsFresh == Fresh(log, Equal)
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

---------------------------- MODULE MCPlacement ----------------------------
(* The life of one layer that is built, moved, cast, loaded, trained and     *)
(* called, while the default precision changes.  Its slots are the weights   *)
(* with the bias, the group grid, the spatial grid and the mask.             *)
EXTENDS Placement, TLC, Json
CONSTANT DEVICES, PRECISIONS, POLICY, DEPTH, HISTORY
VARIABLES default, slot, result, hist
vars == <<default, slot, result, hist>>
Slots == {"weight", "grid", "space", "mask"}
None == Place("none", 0)
Nothing == [op |-> "none", ok |-> TRUE, out |-> None, grid |-> None]
Built == slot["weight"] # None
Note(r) == hist' = IF HISTORY THEN Append(hist, r) ELSE hist
Init == default = 32 /\ slot = [s \in Slots |-> None] /\ result = Nothing /\ hist = <<>>

\* group grid combined with a random element: angle by angle, or by a matrix product
Turned(strict, r) == [ok |-> IF strict THEN CanProduct({r, slot["grid"]}) ELSE CanPointwise({r, slot["grid"]}), at |-> Result({r, slot["grid"]})]
Call(strict, permute, input) ==
  LET t == IF permute THEN Turned(strict, RandomPlace(POLICY, default, input, slot["grid"])) ELSE [ok |-> TRUE, at |-> slot["grid"]]
      \* spatial grid moved by the elements, then the kernel sampled on it and masked
      moved == [ok |-> IF strict THEN CanProduct({t.at, slot["space"]}) ELSE CanPointwise({t.at, slot["space"]}), at |-> Result({t.at, slot["space"]})]
      sampled == [ok |-> CanProduct({moved.at, slot["weight"]}), at |-> moved.at]
      masked == [ok |-> CanPointwise({sampled.at, slot["mask"]}), at |-> Result({sampled.at, slot["mask"]})]
      out == [ok |-> CanProduct({masked.at, input}), at |-> input]
  IN [op |-> "forward", ok |-> t.ok /\ moved.ok /\ sampled.ok /\ masked.ok /\ out.ok, out |-> out.at, grid |-> t.at]

Next ==
  \/ \E p \in PRECISIONS : default' = p /\ result' = Nothing /\ UNCHANGED slot /\ p # default /\ Note([op |-> "default", dev |-> "", prec |-> p, permute |-> FALSE])
  \/ /\ ~Built
     /\ slot' = [s \in Slots |-> IF s = "mask" THEN Place("cpu", 32) ELSE Place("cpu", default)]
     /\ result' = Nothing /\ UNCHANGED default
     /\ Note([op |-> "build", dev |-> "cpu", prec |-> default, permute |-> FALSE])
  \/ \E d \in DEVICES : /\ Built /\ slot' = [s \in Slots |-> Place(d, slot[s].prec)]
                        /\ result' = Nothing /\ UNCHANGED default
                        /\ Note([op |-> "move", dev |-> d, prec |-> 0, permute |-> FALSE])
  \/ \E p \in PRECISIONS : /\ Built /\ slot' = [s \in Slots |-> Place(slot[s].dev, p)]
                           /\ result' = Nothing /\ UNCHANGED default
                           /\ Note([op |-> "cast", dev |-> "", prec |-> p, permute |-> FALSE])
  \/ /\ Built /\ UNCHANGED <<slot, default>> /\ result' = Nothing
     /\ \E d \in DEVICES, p \in PRECISIONS, o \in {"load", "train"} : Note([op |-> o, dev |-> d, prec |-> p, permute |-> FALSE])
  \/ /\ Built /\ UNCHANGED <<slot, default>>
     /\ \E b \in BOOLEAN :
          /\ \E strict \in IF HISTORY THEN {FALSE} ELSE BOOLEAN : result' = Call(strict, b, slot["weight"])
          /\ Note([op |-> "forward", dev |-> "", prec |-> 0, permute |-> b])
Spec == Init /\ [][Next]_vars

\* all slots share one device, and but for the mask one precision
Together == Built => /\ OneDevice({slot[s] : s \in Slots})
                     /\ Cardinality({slot[s] : s \in Slots \ {"mask"}}) = 1
                     /\ slot["mask"].prec <= slot["weight"].prec
\* every call works and answers where it was asked
Answers == result.op = "forward" => result.ok /\ result.out = slot["weight"] /\ result.grid = slot["weight"]
\* which histories are needed to tell the policies apart
Needs == Built =>
  LET w == slot["weight"]
      works(policy, strict) ==
        LET r == RandomPlace(policy, default, w, slot["grid"])
        IN (IF strict THEN CanProduct({r, slot["grid"]}) ELSE CanPointwise({r, slot["grid"]})) /\ Result({r, slot["grid"]}) = w
  IN /\ works("like", TRUE) /\ works("like", FALSE)
     /\ works("device", TRUE) <=> default = w.prec
     /\ works("device", FALSE) <=> default <= w.prec
     /\ works("default", TRUE) <=> (w.dev = "cpu" /\ default = w.prec)
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

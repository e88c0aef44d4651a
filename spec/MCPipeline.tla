----------------------------- MODULE MCPipeline -----------------------------
(* Assembling networks module by module.                                     *)
EXTENDS Pipeline, Json
CONSTANT MaxSp, MaxK, Chans, DEPTH, HISTORY
VARIABLES f, n, hist
vars == <<f, n, hist>>

Some(T) == RandomElement(T)
\* All modules worth trying, or one of many at random.
Candidates ==
  [op : Lift \cup Convs, k : 1..MaxK, s : 1..2, d : 1..2, pad : {"amount", "same"}, p : 0..1, mode : {"zeros"},
   groups : 1..2, co : Chans, no : {0, 2}, nr : {2}, nf : 0..1]
  \cup [op : {"GReLU", "GBatchNorm", "GInstanceNorm"}] \cup [op : {"GLayerNorm"}, last : 1..3]
  \cup [op : {"GMaxSpatialPool"}, k : 1..MaxK, s : 1..2, p : 0..1, ceil : BOOLEAN]
  \cup [op : {"GAdaptiveMaxSpatialPool"}, size : 1..2] \cup [op : {"GMaxGroupPool", "GMaxGlobalPool"}]
\* (a set of one element, since each mention of Some draws again)
Drawn ==
  {IF o \in Lift \cup Convs THEN
       [op |-> o, k |-> Some({1, 2, 3, 3, 3, 5}), s |-> Some({1, 2}), d |-> Some({1, 2}), pad |-> pad, p |-> IF pad = "amount" THEN Some(0..2) ELSE 0,
        mode |-> Some({"zeros", "replicate", "circular", "reflect"}), groups |-> Some({1, 2}), co |-> Some({1, 2, 3, 4}),
        no |-> Some({0, 0, 0, 1, 2, 3}), nr |-> Some(0..5), nf |-> Some(0..4)]
     ELSE IF o = "GLayerNorm" THEN [op |-> o, last |-> Some(1..5)]
     ELSE IF o \in Pools THEN [op |-> o, k |-> Some(1..3), s |-> Some(1..3), p |-> Some(0..1), ceil |-> Some(BOOLEAN)]
     ELSE IF o \in Adapts THEN [op |-> o, size |-> Some(1..4)]
     ELSE [op |-> o] :
   pad \in {Some({"same", "valid", "amount"})},
   o \in {IF f.stage = "plain" THEN "lift" ELSE IF z <= 8 THEN Some(Convs) ELSE IF z <= 12 THEN Some(Acts) ELSE IF z <= 15 THEN Some(Norms)
          ELSE IF z <= 17 THEN Some(Pools) ELSE IF z = 18 THEN Some(Adapts) ELSE IF n >= 6 THEN Some(Ends) ELSE "GReLU" : z \in {Some(1..20)}}}
Init == /\ IF HISTORY THEN \E d \in 2..3, r \in BOOLEAN :
                f \in {[dim |-> d, refl |-> r, stage |-> "plain", N |-> Some(1..3), C |-> Some(1..4), H |-> 0, grid |-> 0,
                     sp |-> IF d = 2 THEN << Some(3..9), Some(3..9) >> ELSE << Some(3..6), Some(3..6), Some(3..6) >>]}
           ELSE f \in [dim : {1}, refl : BOOLEAN, stage : {"plain"}, N : 1..2, C : 1..2, H : {0}, grid : {0}, sp : {<<x>> : x \in 1..MaxSp}]
        /\ n = 0
        /\ hist = IF HISTORY THEN <<f>> ELSE <<>>
Next == /\ n < DEPTH
        /\ n' = n + 1
        /\ IF HISTORY THEN \E m \in Drawn :
                              IF f.stage # "pooled" /\ Enabled(f, m) THEN f' = After(f, m) /\ hist' = Append(hist, m)
                              ELSE UNCHANGED <<f, hist>>
           ELSE \E m \in Candidates : Enabled(f, m) /\ f' = After(f, m) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars

Sizes == f.N >= 1 /\ f.C >= 1 /\ \A a \in 1..Len(f.sp) : f.sp[a] >= 1
InStep == f.grid = f.H /\ (f.stage = "lifted") = (f.H > 0)
\* a network can always go on until it is pooled, and then ends
GoesOn == (f.stage = "plain" => \E m \in Candidates : m.op \in Lift /\ Enabled(f, m))
          /\ (f.stage = "lifted" => \E m \in Candidates : m.op \in Ends /\ Enabled(f, m))
          /\ (f.stage = "pooled" => \A m \in Candidates : ~Enabled(f, m))
\* separable and full layers of the same geometry have the same output
Alike == \A m \in {x \in Candidates : x.op = "sep"} :
           (f.stage = "lifted" /\ Enabled(f, m)) => Enabled(f, [m EXCEPT !.op = "full"]) /\ After(f, m) = After(f, [m EXCEPT !.op = "full"])
Keeps == [][f'.N = f.N /\ f'.dim = f.dim]_vars
Emit == HISTORY => (n < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

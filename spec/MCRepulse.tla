----------------------------- MODULE MCRepulse ------------------------------
(* Histories of runs of the repulsion optimiser on grids that share storage.  *)
EXTENDS Repulsion, TLC, Json
CONSTANT NPTS, NDIM, RANGE, DEPTH, HISTORY
VARIABLES stores, refs, hist, pre
vars == <<stores, refs, hist, pre>>
Grids0 == [1..NPTS -> [1..NDIM -> 0..RANGE]]
Init == /\ \E P \in IF HISTORY THEN {[k \in 1..NPTS |-> [d \in 1..NDIM |-> k * d]]} ELSE Grids0 : stores = <<P>>
        /\ refs = <<1>> /\ hist = <<>> /\ pre = <<>>
Rnd(T) == IF HISTORY THEN {RandomElement(T)} ELSE T
Note(r) == hist' = IF HISTORY THEN Append(hist, r) ELSE hist
Small(P) == \A k \in 1..Len(P), d \in 1..NDIM : P[k][d] <= 60 /\ P[k][d] >= -60
Next ==
  \/ \E h \in Rnd(DOMAIN refs), n \in Rnd(0..3), ip \in Rnd(BOOLEAN), e \in Rnd({"neg", "negsq", "columb"}), quiet \in Rnd(BOOLEAN) :
     /\ Len(refs) < DEPTH
     /\ HISTORY \/ (e = "neg" /\ ~quiet) \/ (e = "negsq" /\ n <= 1 /\ ~quiet)
     /\ HISTORY \/ Small(stores[refs[h]])
     /\ LET R == IF HISTORY THEN stores[refs[h]] ELSE Steps(stores[refs[h]], 1, e, n)
            r == RunOn(stores, refs, h, R, ip)
        IN stores' = r.stores /\ refs' = r.refs
     /\ pre' = IF HISTORY THEN pre ELSE <<stores, refs, h, n, ip, e>>
     /\ Note([op |-> "run", h |-> h, n |-> n, ip |-> ip, e |-> e, quiet |-> quiet])
  \/ /\ HISTORY /\ Len(refs) < DEPTH          \* the caller makes a grid track gradients
     /\ \E h \in Rnd(DOMAIN refs) : Note([op |-> "track", h |-> h, n |-> 0, ip |-> FALSE, e |-> "", quiet |-> FALSE])
     /\ UNCHANGED <<stores, refs, pre>>
Spec == Init /\ [][Next]_vars

\* About the last run: pre describes the state before it.
Ran == pre # <<>>
Old == pre[1][pre[2][pre[3]]]
New == stores[refs[Len(refs)]]
SumOf(P, d) == LET f[k \in 0..Len(P)] == IF k = 0 THEN 0 ELSE f[k - 1] + P[k][d] IN f[Len(P)]
Centred == Ran => \A d \in 1..NDIM : SumOf(New, d) = SumOf(Old, d)
MinOf(T) == CHOOSE m \in T : \A x \in T : m <= x
MinDist(P) == MinOf({SqDist(P[q[1]], P[q[2]]) : q \in {p \in (1..NPTS) \X (1..NPTS) : p[1] # p[2]}})
NoCloser == Ran /\ pre[6] = "neg" => MinDist(New) >= MinDist(Old)
Untouched == Ran => \A i \in DOMAIN pre[1] : stores[i] = pre[1][i] \/ (pre[5] /\ i = pre[2][pre[3]])
Holds == Ran /\ pre[5] => stores[refs[pre[3]]] = New
ZeroSteps == Ran /\ pre[4] = 0 => New = Old
Swap(P) == [k \in 1..NPTS |-> P[NPTS + 1 - k]]
Orderless == Ran => Swap(New) = Steps(Swap(Old), 1, pre[6], pre[4])
Composes == Ran /\ pre[4] > 0 => New = OneStep(Steps(Old, 1, pre[6], pre[4] - 1), 1, pre[6])
Emit == HISTORY => (Len(hist) < 6 \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

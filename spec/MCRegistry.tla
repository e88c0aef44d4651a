----------------------------- MODULE MCRegistry -----------------------------
(* All short histories of a grid cache, its users and their models.  The     *)
(* ghost "first" remembers what was first available under each key since it  *)
(* was last overwritten; every cached key keeps offering exactly that.       *)
EXTENDS GridRegistry, TLC, Json
CONSTANT KEYS, MATRIX, PRE, SLOTS, MODELS, DEPTH, HISTORY
VARIABLES st, first, clock, hist
vars == <<st, first, clock, hist>>

Acts == [op : {"request"}, k : KEYS, s : SLOTS, t : {0}, flag : BOOLEAN]
        \cup [op : {"mutate"}, k : {0}, s : SLOTS, t : {0}, flag : {FALSE}]
        \cup [op : {"save"}, k : {0}, s : SLOTS, t : {0}, flag : BOOLEAN]
        \cup [op : {"build"}, k : KEYS, s : {0}, t : MODELS, flag : {FALSE}]
        \cup [op : {"give"}, k : {0}, s : SLOTS, t : MODELS, flag : {FALSE}]
        \cup [op : {"mutmodel"}, k : {0}, s : {0}, t : MODELS, flag : {FALSE}]
        \cup [op : {"loadstate"}, k : {0}, s : MODELS, t : MODELS, flag : {FALSE}]

Init == /\ st = [cache |-> [k \in KEYS |-> IF k \in PRE THEN k ELSE 0], held |-> [s \in SLOTS |-> 0],
                 hkey |-> [s \in SLOTS |-> 0], model |-> [m \in MODELS |-> 0], mkey |-> [m \in MODELS |-> 0]]
        /\ first = [k \in KEYS |-> IF k \in PRE THEN k ELSE 0]
        /\ clock = 100
        /\ hist = <<>>
\* when behaviours are drawn, every kind of action is as likely
Possible == {a \in Acts : REnabled(st, a, MATRIX)}
Next == \E o \in IF HISTORY THEN {RandomElement({a.op : a \in Possible})} ELSE {a.op : a \in Possible} :
        \E a \in {x \in Possible : x.op = o} :
          /\ clock < 100 + DEPTH
          /\ clock' = clock + 1
          /\ st' = RApply(st, a, clock + 1)
          /\ first' = [k \in KEYS |->
                CASE first[k] = 0 -> st'.cache[k]
                  [] a.op = "save" /\ a.flag /\ st.hkey[a.s] = k -> st.held[a.s]
                  [] OTHER -> first[k]]
          /\ hist' = IF HISTORY THEN Append(hist, a) ELSE hist
Spec == Init /\ [][Next]_vars

Stable == st.cache = first
\* A request right now is answered with what the key first held.
Answers == \A k \in KEYS : first[k] # 0 => Served(st.cache, k, 0) = first[k]
\* Only caching requests and saves put something into the cache.
Quiet == [][\A k \in KEYS : st'.cache[k] # st.cache[k] =>
              \E s \in SLOTS : st'.hkey[s] = k /\ st'.held[s] = st'.cache[k]]_vars
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(hist)>>))
=============================================================================

---------------------------- MODULE GridRegistry ----------------------------
(* The cache of uniform grids and what its users hold.                       *)
(*                                                                           *)
(* Contents of tensors are opaque tokens (equal token, equal contents); 0 is *)
(* "nothing".  A state has the cache (a token per key), the grids users hold *)
(* in slots and the grids inside models, each with its key.                  *)
EXTENDS Integers, Sequences, FiniteSets

\* What a request for key k hands out: the cached contents, or fresh contents.
Served(c, k, fresh) == IF c[k] # 0 THEN c[k] ELSE fresh

\* st = [cache, held, hkey, model, mkey]; act has op, k (key), s, t (slots or models), flag;
\* fresh is the token of newly generated or newly written contents.
RApply(st, act, fresh) ==
  CASE act.op = "request" ->            \* generate or fetch key k into slot s; cache when asked to
         LET v == Served(st.cache, act.k, fresh)
         IN [st EXCEPT !.held[act.s] = v, !.hkey[act.s] = act.k,
                       !.cache[act.k] = IF act.flag /\ st.cache[act.k] = 0 THEN v ELSE st.cache[act.k]]
    [] act.op = "mutate" -> [st EXCEPT !.held[act.s] = fresh]
    [] act.op = "save" ->               \* put the held grid into the cache, overwriting or not
         LET k == st.hkey[act.s]
         IN [st EXCEPT !.cache[k] = IF act.flag \/ st.cache[k] = 0 THEN st.held[act.s] ELSE st.cache[k]]
    [] act.op = "build" -> [st EXCEPT !.model[act.t] = Served(st.cache, act.k, fresh), !.mkey[act.t] = act.k]
    [] act.op = "give" -> [st EXCEPT !.model[act.t] = st.held[act.s], !.mkey[act.t] = st.hkey[act.s]]
    [] act.op = "mutmodel" -> [st EXCEPT !.model[act.t] = fresh]
    [] act.op = "loadstate" -> [st EXCEPT !.model[act.t] = st.model[act.s]]

REnabled(st, act, matrixKeys) ==
  CASE act.op = "request" -> TRUE
    [] act.op \in {"mutate", "save"} -> st.held[act.s] # 0
    [] act.op = "build" -> act.k \in matrixKeys
    [] act.op = "give" -> st.held[act.s] # 0 /\ st.hkey[act.s] \in matrixKeys
    [] act.op = "mutmodel" -> st.model[act.t] # 0
    [] act.op = "loadstate" -> act.s # act.t /\ st.model[act.s] # 0 /\ st.model[act.t] # 0 /\ st.mkey[act.s] = st.mkey[act.t]
=============================================================================

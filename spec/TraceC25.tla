------------------------------ MODULE TraceC25 ------------------------------
(* C25: randomness comes from the global generator alone.                    *)
(* Behaviours of MCRandom replayed: seeding, saving and restoring the state  *)
(* of the generator, and operations of the library.  States are recorded as  *)
(* fingerprints, results at 10^4 (coarse) and as a fingerprint (exact).      *)
EXTENDS TraceJudge, Randomness, Num

Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : (a[i] = BADV /\ b[i] = BADV) \/ Near(a[i], b[i], 3 + Abs(b[i]) \div 2000)
TStInit == [gen |-> 0, saved |-> 0, seeds |-> <<>>, log |-> <<>>]
Do(s, e) ==
  LET new == [op |-> e.n, kind |-> e.kind, pre |-> e.pre, post |-> e.post, result |-> e.y]
      old == SelectSeq(s.log, LAMBDA r : r.op = e.n)
      with(P(_)) == \A i \in 1..Len(old) : P(<<old[i], new>>)
  IN [st |-> [s EXCEPT !.gen = e.post, !.log = Append(s.log, new)],
      bad |-> Failing(<<
        << "the generator is where it was left", e.pre = s.gen >>,
        << "the operation works", e.error = "" >>,
        << "no other source of randomness is touched", e.others >>,
        << "everything that comes out was computed", ~(\E i \in 1..Len(e.y) : e.y[i] = BADV) >>,
        << "deterministic operations leave the generator alone", Contained(<<new>>) >>,
        << "random operations draw from the generator", Moves(<<new>>) >>,
        << "a function of the operation and the generator", with(LAMBDA p : Repeatable(p, Close)) >>,
        << "another state gives something else", with(LAMBDA p : Fresh(p, LAMBDA a, b : a = b)) >> >>)]

TStep(s, e) ==
  CASE e.op = "start" -> [st |-> [s EXCEPT !.gen = e.post], bad |-> {}]
    [] e.op = "seed" ->
         LET known == e.n \in DOMAIN s.seeds
         IN [st |-> [s EXCEPT !.gen = e.post, !.seeds = IF known THEN s.seeds ELSE [k \in DOMAIN s.seeds \cup {e.n} |-> IF k = e.n THEN e.post ELSE s.seeds[k]]],
             bad |-> Failing(<< << "seeding is repeatable", known => s.seeds[e.n] = e.post >> >>)]
    [] e.op = "save" -> [st |-> [s EXCEPT !.saved = s.gen], bad |-> {}]
    [] e.op = "restore" -> [st |-> [s EXCEPT !.gen = s.saved], bad |-> Failing(<< << "restoring restores", e.post = s.saved >> >>)]
    [] e.op = "do" -> Do(s, e)
=============================================================================

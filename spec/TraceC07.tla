------------------------------ MODULE TraceC07 ------------------------------
(* C07: histories of the grid cache, its users and their models.             *)
EXTENDS TraceJudge, GridRegistry, Num

\* "start" records what the cache offers for each key of this trace (0: not cached).
\* Every other event records the act, and afterwards the tokens of what the cache offers,
\* of all held grids and of the grids of all models, and the shape of a requested grid.
TStInit == [none |-> TRUE]

Act(s, e) ==
  LET a == e.act
      fresh == CASE a.op \in {"request", "mutate"} -> e.held[a.s]
                 [] a.op \in {"build", "mutmodel"} -> e.model[a.t]
                 [] OTHER -> 0
      n == RApply(s, a, fresh)
  IN [st |-> n,
      bad |-> Failing(<<
        << "the history is one of the specification", REnabled(s, a, {k \in 1..Len(e.keys) : e.keys[k][2] = "matrix"}) >>,
        << "contents served and cached", e.probe = n.cache >>,
        << "grids held by users", e.held = n.held >>,
        << "grids of models", e.model = n.model >>,
        << "shape of the grid",
           a.op # "request" \/ e.so = <<e.keys[a.k][1]>> \o (CASE e.keys[a.k][2] = "matrix" -> <<3, 3>>
                                                               [] e.keys[a.k][2] = "quat" -> <<4>>
                                                               [] e.keys[a.k][2] = "euler" -> <<3>>) >> >>)]

\* The planar and O(3) generators hand out independent grids as well: e.first and
\* e.again are tokens of two requests between which the first result was overwritten.
Again(e) == Failing(<< << "later requests return the same grid", e.first = e.again >>,
                       << "the first result was really modified", e.first # e.mutated >> >>)

TStep(s, e) ==
  CASE e.op = "start" -> [st |-> [cache |-> e.probe, held |-> e.held, hkey |-> [i \in 1..Len(e.held) |-> 0],
                                  model |-> e.model, mkey |-> [i \in 1..Len(e.model) |-> 0]], bad |-> {}]
    [] e.op = "act" -> Act(s, e)
    [] e.op = "again" -> [st |-> s, bad |-> Again(e)]
=============================================================================

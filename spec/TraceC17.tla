------------------------------ MODULE TraceC17 ------------------------------
(* C17: models, grids and saved states do not share anything.                *)
(* Behaviours of MCModelStore replayed on networks.                          *)
EXTENDS TraceJudge, ModelStore, Num

\* After every operation all live names are observed: e.now is a sequence of
\* [name, fp, y]: fingerprints of the contents, and for models of the function (10^4).
Map(now) == [n \in {now[i].name : i \in 1..Len(now)} |-> LET i == CHOOSE i \in 1..Len(now) : now[i].name = n IN [fp |-> now[i].fp, y |-> now[i].y, yc |-> now[i].yc]]
SameFun(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 3 + Abs(b[i]) \div 10000)
Step1(s, e) ==
  LET now == Map(e.now)
      src == IF e.src = "" THEN [fp |-> 0, y |-> <<>>, yc |-> 0] ELSE s[e.src]
  IN [st |-> now,
      bad |-> Failing(<<
        << "nothing else appears or disappears", DOMAIN now = DOMAIN s \cup {e.target} >>,
        << "no other model, grid or saved state changes", \A n \in (DOMAIN s \cap DOMAIN now) \ {e.target} : now[n].fp = s[n].fp >>,
        << "no other function changes", \A n \in (DOMAIN s \cap DOMAIN now) \ {e.target} : now[n].yc = s[n].yc >>,
        << "the operation succeeds", e.error = "" >>,
        << "same contents as the source", Gives(e.op) # "nothing" => now[e.target].fp = src.fp >>,
        << "same function as the source", Gives(e.op) # "nothing" => SameFun(now[e.target].y, src.y) >>,
        << "calls change nothing", e.op = "forward" => now[e.target].fp = s[e.target].fp >>,
        << "moving keeps the function", e.op = "move" => SameFun(now[e.target].y, s[e.target].y) /\ now[e.target].fp = s[e.target].fp >>,
        << "built on the given grid", e.op = "build" => e.ongrid >> >>)]

TStInit == <<>>
TStep(s, e) == IF e.op = "begin" THEN [st |-> Map(e.now), bad |-> {}] ELSE Step1(s, e)
=============================================================================

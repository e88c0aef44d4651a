------------------------------ MODULE TraceC16 ------------------------------
(* C16: networks assembled by MCPipeline, run on the real modules.            *)
EXTENDS TraceJudge, Pipeline

TStInit == <<>>
TStep(s, e) ==
  CASE e.op = "names" -> [st |-> s, bad |-> Failing(<< << "offered modules exist", e.missing = <<>> >> >>)]
    [] e.op = "input" -> [st |-> e.f, bad |-> {}]
    [] e.op = "module" ->
         LET t == IF Enabled(s, e.m) THEN After(s, e.m) ELSE s
             end == t.stage = "pooled"
         IN [st |-> t,
             bad |-> Failing(<<
               << "driver: enabled", Enabled(s, e.m) >>,
               << "runs", e.error = "" >>,
               << "returns features and grid, or features at the end", e.error # "" \/ e.kind = (IF end THEN "tensor" ELSE "pair") >>,
               << "sizes of the features", e.error # "" \/ e.shape = ShapeOf(t) \/ (end /\ t.sp = <<1>> /\ ProdSeq(e.shape) = t.N * t.C) >>,
               << "grid in step with the features", e.error # "" \/ end \/ e.grid = t.grid >>,
               << "finite values", e.error # "" \/ e.finite >>,
               << "element type of the input", e.error # "" \/ e.float >> >>)]
=============================================================================

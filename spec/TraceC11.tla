------------------------------ MODULE TraceC11 ------------------------------
(* C11: layers compute the group convolution with the declared geometry.     *)
EXTENDS ConvJudge

TStInit == <<>>
TStep(s, e) == [st |-> s, bad |-> CASE e.op = "layer" -> Layer(e)]
=============================================================================

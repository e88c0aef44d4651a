------------------------------ MODULE TraceC20 ------------------------------
(* Runs of the repulsion optimiser recorded from the code.                    *)
EXTENDS TraceJudge, Num, Repulsion
\* Positions have scale 10^4, distances and forces scale 10^3, M scale 10^3.
Dist3(e, P, k, j) ==
  LET q == SumFn(Len(P[k]), LAMBDA d : RDiv(P[k][d] - P[j][d], 10) * RDiv(P[k][d] - P[j][d], 10))
  IN (RDiv(q, 1000) * e.a * e.a) \div e.c
RECURSIVE Pow3(_, _)
Pow3(u, n) == IF n = 0 THEN 1000 ELSE RDiv(u * Pow3(u, n - 1), 1000)
Force3(e, t) == CASE e.e = "neg" -> 1000
                  [] e.e = "negsq" -> 2 * t
                  [] e.e = "columb" -> e.k * Pow3(1000000 \div Max2(t, 1), e.k + 1)
M3(e, n) == RDiv(e.lr * 4 * e.a * e.a, 10 * e.c * n * (n - 1))
Times3(f, x) == IF Abs(f) > 10000 THEN RDiv(f * RDiv(x, 10), 100) ELSE RDiv(f * x, 1000)
Total(e, P, k, d) == SumFn(Len(P), LAMBDA j : IF j = k THEN 0 ELSE Times3(Force3(e, Dist3(e, P, k, j)), P[k][d] - P[j][d]))
Move(e, P) == LET m == M3(e, Len(P))
              IN [k \in 1..Len(P) |-> [d \in 1..Len(P[k]) |-> P[k][d] + RDiv(m * Total(e, P, k, d), 1000)]]
RECURSIVE Moves(_, _, _)
Moves(e, P, n) == IF n = 0 THEN P ELSE Moves(e, Move(e, P), n - 1)
Close(e, P, Q, R) == \* Q expected, R recorded, P before
  /\ Len(R) = Len(Q)
  /\ \A k \in 1..Len(Q) : Len(R[k]) = Len(Q[k]) /\ \A d \in 1..Len(Q[k]) :
       Abs(R[k][d] - Q[k][d]) <= 40 + (Abs(Q[k][d] - P[k][d]) \div 30) + (Abs(Q[k][d]) \div 500)

\* Abstract state: values and fingerprint of every store, handle -> store, handles tracking gradients.
TStInit == [vals |-> <<>>, crcs |-> <<>>, refs |-> <<>>, track |-> <<>>]

Begin(s, e) == [st |-> [vals |-> <<e.vals>>, crcs |-> <<e.crc>>, refs |-> <<1>>, track |-> <<FALSE>>], bad |-> {}]
Track(s, e) == [st |-> [s EXCEPT !.track[e.h] = TRUE], bad |-> {}]
RunIt(s, e) ==
  IF e.raised THEN [st |-> s, bad |-> {"run-raised"}]
  ELSE
  LET P == s.vals[s.refs[e.h]]
      Q == Moves(e, P, e.n)
      r == RunOn(s.vals, s.refs, e.h, e.vals, e.ip)
      c == RunOn(s.crcs, s.refs, e.h, e.crc, e.ip)
      tr == Append([s.track EXCEPT ![e.h] = IF e.ip THEN FALSE ELSE @], FALSE)
  IN [st |-> [vals |-> r.stores, crcs |-> c.stores, refs |-> r.refs, track |-> tr],
      bad |-> Failing(<<
        <<"shape", e.shape = <<Len(P), Len(P[1])>> >>,
        <<"step-size-metric-energy", Close(e, P, Q, e.vals)>>,
        <<"zero-steps", e.n = 0 => e.crc = s.crcs[s.refs[e.h]]>>,
        \* every handle the caller has, read again after the run
        <<"argument-kept-or-holds-the-result", e.all = [i \in 1..Len(r.refs) |-> c.stores[r.refs[i]]]>>,
        <<"gradient-tracking", e.rg = tr>>,
        <<"gradient-left", ~e.grad>> >>)]

\* Two runs that must agree: deterministic, defaults written out, another order of the points.
Agree(s, e) == [st |-> s, bad |-> Failing(<<
    <<e.what, Finite(e.x) /\ NearSeq(e.x, e.y, e.tol)>> >>)]

\* Spread: closest pair before and after, scale 10^5.
Spread(s, e) == [st |-> s, bad |-> Failing(<<
    <<"closer-than-the-start", e.after # BADV /\ e.after >= e.before>>,
    <<"spread-shape", e.shape = e.shape0>>,
    <<"spread-tracking", ~e.rg>>,
    <<"spread-argument", e.ip = FALSE => e.kept>>,
    <<"spread-argument-in-place", e.ip => e.same>> >>)]

(* Noise.  A metric without gradient leaves the noise alone: with noise level  *)
(* alpha and step size s, step i of n adds normal noise of deviation           *)
(* s alpha (n - i) / n, i = 0..n-1.  var: mean square of the displacement over  *)
(* (s alpha)^2, scale 10^3; mean: mean over (s alpha), scale 10^3; count: number*)
(* of samples.                                                              *)
Schedule3(n) == SumFn(n, LAMBDA i : RDiv(1000 * (n - i + 1) * (n - i + 1), n * n))
NoiseIt(s, e) == LET v == Schedule3(e.n) IN [st |-> s, bad |-> Failing(<<
    <<"noise-level", Abs(e.var - v) <= 2 + (v \div 6)>>,
    <<"noise-mean", Abs(e.mean) * Abs(e.mean) <= (30 * v) \div (e.count \div 1000) + 4>>,
    <<"noise-independent", Abs(e.cov) <= 2 + (v \div 6)>>,
    <<"no-noise-without-alpha", e.silent>> >>)]

TStep(s, e) ==
  CASE e.op = "begin" -> Begin(s, e) [] e.op = "track" -> Track(s, e) [] e.op = "run" -> RunIt(s, e)
    [] e.op = "agree" -> Agree(s, e) [] e.op = "spread" -> Spread(s, e) [] e.op = "noise" -> NoiseIt(s, e)
=============================================================================

------------------------------ MODULE TraceC22 ------------------------------
(* C22: gradients.                                                            *)
EXTENDS ConvJudge, Gradients, UserOps

(* The convolution: e as in ConvJudge, with the derivative c by the output and *)
(* the derivatives gx, gK, gKS, gb that arrived.                              *)
Adjoint(e) ==
  LET T == TLCEval(Table(Geo(e)))
      cells == Size(InShape(Geo(e)))
      kc == Size(KShape(Geo(e)))
      met == TLCEval(Met(T, cells))
      N == Len(e.x)
      opg == e.nout \div e.groups
      ipg == e.nin \div e.groups
      ich(oc, icl) == InChannel(oc, icl, ipg, opg)
      \* the output channels that read input channel ic, and its place among theirs
      first(ic) == ((ic - 1) \div ipg) * opg
      place(ic) == ((ic - 1) % ipg) + 1
      one == \* lifting and full; kernel of a channel, element, channel of the group, element
        LET ker(oc, o, icl, i) == IF e.form = "lift" THEN e.K[oc][o][icl] ELSE e.K[oc][o][icl][i]
            gker(oc, o, icl, i) == IF e.form = "lift" THEN e.gK[oc][o][icl] ELSE e.gK[oc][o][icl][i]
        IN << << "derivative by the input",
                 \A n \in 1..N, ic \in 1..e.nin, i \in 1..e.ni :
                    e.gx[n][ic][i] = SumSeqs(opg * e.no, cells, LAMBDA j : LET oc == first(ic) + 1 + ((j - 1) \div e.no)
                                                                               o == 1 + ((j - 1) % e.no)
                                                                           IN ByInput(met, ker(oc, o, place(ic), i), e.c[n][oc][o])) >>,
              << "derivative by the kernel",
                 \A oc \in 1..e.nout, o \in 1..e.no, icl \in 1..ipg, i \in 1..e.ni :
                    gker(oc, o, icl, i) = SumSeqs(N, kc, LAMBDA n : ByKernel(T, e.x[n][ich(oc, icl)][i], e.c[n][oc][o])) >> >>
      two ==
        LET gm == TLCEval([n \in 1..N |-> [oc \in 1..e.nout |-> [o \in 1..e.no |-> ByInput(met, e.KS[oc][o], e.c[n][oc][o])]]])
            dot(u, v) == SumFn(Len(u), LAMBDA a : u[a] * v[a])
        IN << << "derivative by the input",
                 \A n \in 1..N, ic \in 1..e.nin, i \in 1..e.ni :
                    e.gx[n][ic][i] = SumSeqs(opg * e.no, cells, LAMBDA j : LET oc == first(ic) + 1 + ((j - 1) \div e.no)
                                                                               o == 1 + ((j - 1) % e.no)
                                                                               w == e.K[oc][o][place(ic)][i]
                                                                           IN [a \in 1..cells |-> w * gm[n][oc][o][a]]) >>,
              << "derivative by the kernel",
                 \A oc \in 1..e.nout, o \in 1..e.no : \A icl \in 1..ipg, i \in 1..e.ni :
                    e.gK[oc][o][icl][i] = SumFn(N, LAMBDA n : dot(gm[n][oc][o], e.x[n][ich(oc, icl)][i])) >>,
              << "derivative by the spatial kernel",
                 \A oc \in 1..e.nout, o \in 1..e.no :
                    e.gKS[oc][o] = SumSeqs(N, kc, LAMBDA n : ByKernel(T, TLCEval(Mixed(e.K[oc][o], e.x[n], oc, ipg, opg)), e.c[n][oc][o])) >> >>
  IN Failing((IF e.form = "sep" THEN two ELSE one) \o
        << << "derivative by the bias",
              e.hasb => \A oc \in 1..e.nout : e.gb[oc] = SumFn(N, LAMBDA n : SumFn(e.no, LAMBDA o : SumSeq(e.c[n][oc][o]))) >> >>)

(* Sampling: e as in TraceC21, with the derivatives dH and d by the group and  *)
(* the spatial part of the kernel.                                            *)
Back1(e, o, d) ==
  LET a == IF e.mask = <<>> THEN d ELSE [p \in 1..Len(d) |-> e.mask[p] * d[p]]
      b == IF e.det THEN [p \in 1..Len(a) |-> (IF UDet(o) < 0 THEN -a[p] ELSE a[p]) \div Abs(UDet(o))] ELSE a
  IN BackRn(TLCEval(b), TLCEval([p \in 1..Len(e.grn) |-> UAct(UInv(o), e.grn[p])]), e.gain)
Pulled(e) ==
  LET no == Len(e.outs)
      ni == Len(e.ins)
      np == Len(e.grn)
      share == TLCEval([o \in 1..no |-> [i \in 1..ni |-> AtH(UMul(UInv(e.outs[o]), e.ins[i]), e.ref, e.shift)]])
      pairs == [j \in 1..(no * ni) |-> << 1 + ((j - 1) \div ni), 1 + ((j - 1) % ni) >>]
      entry(row, oc, ic) == row[(oc - 1) * e.nin + ic]
      part(row, oc, ic) == LET b == ((oc - 1) * e.nin + ic - 1) * np IN SubSeq(row, b + 1, b + np)
  IN Failing(<<
       << "derivative by the group weights",
          e.form \in {"sep", "sub"} =>
            \A r \in 1..Len(e.ref), oc \in 1..e.nout, ic \in 1..e.nin :
               entry(e.gH[r], oc, ic) = SumFn(Len(pairs), LAMBDA j : share[pairs[j][1]][pairs[j][2]][r] * e.dH[oc][pairs[j][1]][ic][pairs[j][2]]) >>,
       << "derivative by the weights",
          CASE e.form = "lift" -> \A oc \in 1..e.nout, ic \in 1..e.nin :
                 e.gw[oc][ic] = SumSeqs(no, np, LAMBDA o : Back1(e, e.outs[o], e.d[oc][o][ic]))
            [] e.form = "sep" -> \A oc \in 1..e.nout : e.gS[oc] = SumSeqs(no, np, LAMBDA o : Back1(e, e.outs[o], e.d[oc][o]))
            [] e.form = "full" -> \A oc \in 1..e.nout, ic \in 1..e.nin :
                 LET at == TLCEval([j \in 1..Len(pairs) |-> Back1(e, e.outs[pairs[j][1]], e.d[oc][pairs[j][1]][ic][pairs[j][2]])])
                 IN \A r \in 1..Len(e.ref) :
                      part(e.gw[r], oc, ic) = SumSeqs(Len(pairs), np, LAMBDA j : [p \in 1..np |-> share[pairs[j][1]][pairs[j][2]][r] * at[j][p]])
            [] OTHER -> TRUE >> >>)

(* What the gradient predicts for a step, dot, against what steps forward and  *)
(* backward change, fp and fm: the same for something affine, on average for   *)
(* something quadratic, and for some tiny step of something piecewise smooth,   *)
(* on one side at least.                                                      *)
Slope(e) ==
  LET tol == IF e.kind = "smooth" THEN 2000 + Abs(e.dot) \div 500 ELSE IF e.double THEN 20 + Abs(e.dot) \div 100000 ELSE 60 + Abs(e.dot) \div 2000
      fin == e.dot # BADV /\ Finite(e.fp) /\ Finite(e.fm) /\ Finite(e.mean)
  IN Failing(<< << "finite", fin >>,
                << "derivative", fin => CASE e.kind = "linear" -> Near(e.fp[1], e.dot, tol) /\ Near(e.fm[1], e.dot, tol)
                                          [] e.kind = "square" -> Near(e.mean[1], e.dot, tol)
                                          [] e.kind = "smooth" -> \E i \in 1..Len(e.fp) : Near(e.fp[i], e.dot, tol) \/ Near(e.fm[i], e.dot, tol) \/ Near(e.mean[i], e.dot, tol) >> >>)
Reach(e) == Failing(<< << "a gradient for everything", \A i \in 1..Len(e.names) : e.present[i] >>,
                       << "gradients shaped as their tensors", \A i \in 1..Len(e.names) : e.present[i] => e.got[i] = e.shapes[i] >>,
                       << "finite", \A i \in 1..Len(e.names) : e.present[i] => e.finite[i] >> >>)

TStInit == <<>>
TStep(s, e) ==
  [st |-> s,
   bad |-> CASE e.op = "adjoint" -> Adjoint(e)
             [] e.op = "pulled" -> Pulled(e)
             [] e.op = "slope" -> Slope(e)
             [] e.op = "reach" -> Reach(e)
             [] e.op = "backward" -> {"backward raised"}
             [] e.op = "still" -> Failing(<< << "grids do not track gradients", \A i \in 1..Len(e.grads) : ~e.grads[i] >> >>)]
=============================================================================

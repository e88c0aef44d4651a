------------------------------ MODULE TraceC21 ------------------------------
(* C21: kernels and layers of user-supplied groups.  The supplied operations  *)
(* have no group structure at all: any other use of them gives other numbers. *)
EXTENDS ConvJudge, Spatial, CustomGroup, UserOps

UPos(e, o) == [p \in 1..Len(e.grn) |-> UAct(UInv(o), e.grn[p])]
Spatial1(e, pos, o, w) ==
  LET s == USampleRn(w, pos, e.gain)
      m == IF e.mask = <<>> THEN s ELSE [p \in 1..Len(s) |-> e.mask[p] * s[p]]
  IN IF e.det THEN [p \in 1..Len(m) |-> (IF UDet(o) < 0 THEN -m[p] ELSE m[p]) \div Abs(UDet(o))] ELSE m
GroupRow(e, o, i) == USampleH(UMul(UInv(o), i), e.wH, e.ref, e.shift)

\* e.outs, e.ins, e.ref flattened elements; e.wH[r] rows (group part), e.w[oc][ic] cells (lifting),
\* e.wS[oc] cells (separable); e.got as recorded
KernelEv(e) ==
  LET no == Len(e.outs)
      ni == Len(e.ins)
      ones == [a \in 1..Len(e.ks) |-> 1]
      group == << e.nout, no, e.nin, ni >>
      entry(row, oc, ic) == row[(oc - 1) * e.nin + ic]
      np == Len(e.grn)
      part(row, oc, ic) == LET b == ((oc - 1) * e.nin + ic - 1) * np IN SubSeq(row, b + 1, b + np)
  IN Failing(<<
       << "documented arguments", \A j \in 1..Len(e.calls) : CallOk(e.calls[j], e.dims, Len(e.ref), e.ks, Len(e.ks)) >>,
       << "shape of the kernel",
          CASE e.form = "lift" -> e.so = << e.nout, no, e.nin >> \o e.ks
            [] e.form = "sep" -> e.so = group \o ones /\ e.ss = << e.nout, no, 1 >> \o e.ks
            [] e.form = "full" -> e.so = group \o e.ks
            [] e.form = "sub" -> e.so = group \o e.ks >>,
       << "group part",
          e.form \in {"sep", "sub"} =>
            \A o \in 1..no, i \in 1..ni : LET row == GroupRow(e, e.outs[o], e.ins[i])
                                          IN \A oc \in 1..e.nout, ic \in 1..e.nin : e.gotH[oc][o][ic][i] = entry(row, oc, ic) >>,
       << "spatial part",
          \A o \in 1..no :
             LET pos == UPos(e, e.outs[o])
             IN CASE e.form = "lift" -> \A oc \in 1..e.nout, ic \in 1..e.nin : e.got[oc][o][ic] = Spatial1(e, pos, e.outs[o], e.w[oc][ic])
                  [] e.form = "sep" -> \A oc \in 1..e.nout : e.got[oc][o] = Spatial1(e, pos, e.outs[o], e.wS[oc])
                  [] e.form = "full" -> \A i \in 1..ni :
                       LET row == GroupRow(e, e.outs[o], e.ins[i])
                       IN \A oc \in 1..e.nout, ic \in 1..e.nin : e.got[oc][o][ic][i] = Spatial1(e, pos, e.outs[o], part(row, oc, ic))
                  [] OTHER -> TRUE >>,
       << "arguments unchanged", e.c0 = e.c1 >> >>)

(* Dilations and rotations: e.o = <<log2 of the scale, quarter turns>>; the     *)
(* lifting kernel at position x is the kernel at the inverse rotation of x     *)
(* divided by the scale, divided by scale to the power of the dimension.       *)
Turn(v, t) == CASE t % 4 = 0 -> v
                [] t % 4 = 1 -> << -v[2], v[1] >> \o SubSeq(v, 3, Len(v))
                [] t % 4 = 2 -> << -v[1], -v[2] >> \o SubSeq(v, 3, Len(v))
                [] t % 4 = 3 -> << v[2], -v[1] >> \o SubSeq(v, 3, Len(v))
Scaled(v, k) == [a \in 1..Len(v) |-> CASE k = 0 -> v[a] [] k = 1 -> RDiv(v[a], 2) [] k = -1 -> 2 * v[a]]
Power(k, dim) == IF dim = 2 THEN (IF k = 0 THEN 1 ELSE 4) ELSE (IF k = 0 THEN 1 ELSE 8)
DilateEv(e) ==
  LET at(o) == [p \in 1..Len(e.grn) |-> PosVec(e.n, e.pad, Scaled(Turn(e.grn[p], -o[2]), o[1]))]
      want(o, w) == [p \in 1..Len(e.grn) |-> Weighted(Shares(e.n, e.dim, at(o)[p]), w)]
      ok(o, w, got) == LET v == want(o, w)
                       IN \A p \in 1..Len(v) : IF o[1] = 1 THEN Near(got[p] * Power(1, e.dim), v[p], 40)
                                               ELSE Near(got[p], v[p] * Power(o[1], e.dim), 40)
  IN Failing(<< << "dilated kernel divided by the determinant",
                   \A oc \in 1..Len(e.w), o \in 1..Len(e.outs), ic \in 1..Len(e.w[1]) : ok(e.outs[o], e.w[oc][ic], e.got[oc][o][ic]) >> >>)

TStInit == <<>>
TStep(s, e) ==
  [st |-> s,
   bad |-> CASE e.op = "raised" -> {"raised"}
             [] e.op = "kernel" -> KernelEv(e)
             [] e.op = "layer" -> Layer(e)
             [] e.op = "dilate" -> DilateEv(e)
             [] e.op = "agree" -> Failing(<< << e.what, Finite(e.x) /\ NearSeq(e.x, e.y, 20) >> >>)]
=============================================================================

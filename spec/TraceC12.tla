------------------------------ MODULE TraceC12 ------------------------------
(* C12: equivariance.  Behaviours of MCEquiv replayed on layers and networks. *)
EXTENDS TraceJudge, Equivariance

\* s.y[n][oc][o] cells of the first output, s.sh/s.tb where its cells stand now, s.wo where its
\* output elements stand now, s.sg the sign, s.b the bias by output channel.
Close(a, b) == Near(a, b, 10 + Abs(b) \div 2000)
Fits(s, e) ==
  /\ e.so = << Len(s.y), Len(s.y[1]), Len(s.wo) >> \o s.sh
  /\ \A n \in 1..Len(s.y), oc \in 1..Len(s.y[1]), o \in 1..Len(s.wo) :
       LET b == s.y[n][oc][s.wo[o]]
       IN \A p \in 1..Len(s.tb) : Close(e.y[n][oc][o][p], IF s.sg = 1 THEN b[s.tb[p]] ELSE 2 * s.b[oc] - b[s.tb[p]])
Swap(t, i, j) == [t EXCEPT ![i] = t[j], ![j] = t[i]]
Begin(e) == [y |-> e.y, sh |-> SubSeq(e.so, 4, Len(e.so)), tb |-> [p \in 1..Len(e.y[1][1][1]) |-> p],
             wo |-> [o \in 1..e.so[3] |-> o], sg |-> 1, b |-> e.b, depth |-> e.depth, k |-> e.k]
Step1(s, e) ==
  CASE e.op = "sym" -> LET m == Moved2(s.tb, s.sh, Sym(s.k, e.h))
                       IN [s EXCEPT !.tb = m.tb, !.sh = m.sh, !.sg = IF s.depth % 2 = 1 THEN s.sg * e.h[1] ELSE s.sg]
    [] e.op = "shift" -> [s EXCEPT !.tb = Rolled(s.tb, s.sh, e.axis, e.by)]
    [] e.op = "swapout" -> [s EXCEPT !.wo = Swap(s.wo, e.i, e.j)]
    [] e.op = "swapin" -> s
Name(e) == CASE e.op = "sym" -> "symmetry of the lattice moves the output"
             [] e.op = "shift" -> "translation moves the output"
             [] e.op = "swapout" -> "reordering the output grid reorders the output"
             [] e.op = "swapin" -> "reordering the input grid changes nothing"

\* Outputs that see only cells the two inputs share: x1 moved by e.by strides along the axes.
Interior(e) ==
  LET d == Len(e.axes)
      os == SubSeq(e.so, 4, 3 + d)
      \* output position p + t of the moved input against p of the original
      lo(a, p) == p * e.axes[a].s - e.axes[a].pl
      hi(a, p) == lo(a, p) + e.axes[a].d * (e.axes[a].k - 1)
      ok(p, q) == \A a \in 1..d : /\ q[a] >= 0 /\ q[a] < os[a]
                                  /\ lo(a, p[a]) >= 0 /\ hi(a, p[a]) < e.axes[a].L
                                  /\ lo(a, q[a]) >= 0 /\ hi(a, q[a]) < e.axes[a].L
  IN Failing(<<
       << "output shape independent of the contents", e.so = e.so2 >>,
       << "translation away from the border",
          \A p \in 1..Size(os) :
             LET ix == Unflat(os, p - 1)
                 jx == [a \in 1..d |-> ix[a] + e.by[a]]
             IN ok(ix, jx) => LET r == Flat(os, jx) + 1
                              IN \A n \in 1..Len(e.y), oc \in 1..Len(e.y[1]), o \in 1..Len(e.y[1][1]) :
                                   Close(e.y2[n][oc][o][r], e.y[n][oc][o][p]) >> >>)

\* Pooled features of the input and of the moved input.
Pooled(e) == Failing(<< << "symmetry of the lattice", IsSym(e.k, e.h) >>,
                        << "pooled features do not change", Len(e.y) = Len(e.y2) /\ \A i \in 1..Len(e.y) : Close(e.y[i], e.y2[i]) >>,
                        << "features are not constant", e.varies >> >>)

TStInit == <<>>
TStep(s, e) ==
  CASE e.op = "begin" -> [st |-> Begin(e), bad |-> {}]
    [] e.op \in {"sym", "shift", "swapin", "swapout"} ->
         LET n == Step1(s, e)
         IN [st |-> n, bad |-> Failing(<< << "symmetry of the lattice", e.op # "sym" \/ IsSym(s.k, e.h) >>,
                                          << Name(e), Fits(n, e) >> >>)]
    [] e.op = "interior" -> [st |-> s, bad |-> Interior(e)]
    [] e.op = "pooled" -> [st |-> s, bad |-> Pooled(e)]
=============================================================================

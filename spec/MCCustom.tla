------------------------------ MODULE MCCustom ------------------------------
(* 1. Evaluation of a kernel as a program over the operations, in any order   *)
(*    that respects the data flow: one result, legal calls only, and only the  *)
(*    operations the form needs.                                             *)
(* 2. The affine group of the field with P elements, dilations included: the  *)
(*    kernel divided by the determinant (a character into the field) gives     *)
(*    convolutions that commute with the group up to the Jacobian.            *)
(* 3. With HISTORY, configurations of user-supplied groups for the driver.    *)
EXTENDS CustomGroup, TLC, Json
CONSTANT P, HISTORY
VARIABLES f, opt, vals, calls, cfg
vars == <<f, opt, vals, calls, cfg>>

-----------------------------------------------------------------------------
\* 1. Values that have been computed: name |-> <<term, shape>>; dims etc. symbolic primes.
N == 2
M == 3
R == 5
Dims == <<7>>
Ks == <<11, 13>>
D == 2
Put(v, n, t) == [k \in DOMAIN v \cup {n} |-> IF k = n THEN t ELSE v[k]]
Has(n) == n \in DOMAIN vals
Given0 == [o |-> <<"o", <<N>> \o Dims>>, i |-> <<"i", <<M>> \o Dims>>]
Run(n, t, c) == ~Has(n) /\ vals' = Put(vals, n, t) /\ calls' = Append(calls, c) /\ UNCHANGED <<f, opt, cfg>>
Shape(n) == vals[n][2]
Term(n) == vals[n][1]
Evaluate ==
  \/ Has("o") /\ Run("inv", << <<"inv", Term("o")>>, Shape("o") >>, << "inv", << Shape("o") >> >>)
  \/ HasGroup(f) /\ Has("inv") /\ Run("rel", << <<"mul", Term("inv"), Term("i")>>, <<N, M>> \o Dims >>, << "mul", << Shape("inv"), Shape("i") >> >>)
  \/ HasSpace(f) /\ Has("inv") /\ Run("pos", << <<"act", Term("inv"), "grn">>, <<N>> \o Ks \o <<D>> >>, << "act", << Shape("inv"), Ks \o <<D>> >> >>)
  \/ Has("rel") /\ Run("group", << <<"sampleH", Term("rel"), "wH", "ref">>, <<N * M, 4>> >>, << "sampleH", << <<N * M>> \o Dims, <<R, 4>>, <<R>> \o Dims >> >>)
  \/ f # "full" /\ Has("pos") /\ Run("space", << <<"sampleRn", "w", Term("pos")>>, <<N, 1>> \o Ks >>, << "sampleRn", << <<N, 1>> \o Ks, <<N>> \o Ks \o <<D>> >> >>)
  \/ f = "full" /\ Has("pos") /\ Has("group") /\ Run("space", << <<"sampleRn", Term("group"), Term("pos")>>, <<N * M, 4>> \o Ks >>,
                                                       << "sampleRn", << <<N * M, 4>> \o Ks, <<N * M>> \o Ks \o <<D>> >> >>)
  \/ opt.det /\ HasSpace(f) /\ Run("d", << <<"det", Term("o")>>, <<N>> >>, << "det", << Shape("o") >> >>)
Space == LET s == Term("space")
             m == IF opt.mask THEN <<"times", "mask", s>> ELSE s
         IN IF opt.det THEN <<"over", m, Term("d")>> ELSE m
Done == (HasGroup(f) => Has("group")) /\ (HasSpace(f) => Has("space") /\ (opt.det => Has("d")))
Result == [g |-> IF f \in {"sep", "sub"} THEN Term("group") ELSE "", s |-> IF HasSpace(f) THEN Space ELSE ""]
Expected ==
  LET g == <<"sampleH", <<"mul", <<"inv", "o">>, "i">>, "wH", "ref">>
      s == <<"sampleRn", IF f = "full" THEN g ELSE "w", <<"act", <<"inv", "o">>, "grn">> >>
      m == IF opt.mask THEN <<"times", "mask", s>> ELSE s
  IN [g |-> IF f \in {"sep", "sub"} THEN g ELSE "", s |-> IF HasSpace(f) THEN (IF opt.det THEN <<"over", m, <<"det", "o">> >> ELSE m) ELSE ""]
OneResult == ~HISTORY /\ Done => Result = Expected
LegalCalls == \A j \in 1..Len(calls) : CallOk(calls[j], Dims, R, Ks, D)
OnlyNeeded == \A j \in 1..Len(calls) : /\ (calls[j][1] \in {"mul", "sampleH"} => HasGroup(f))
                                       /\ (calls[j][1] \in {"act", "sampleRn", "det"} => HasSpace(f))
                                       /\ (calls[j][1] = "det" => opt.det)

-----------------------------------------------------------------------------
\* 2. Elements s of the multiplicative group act on the field by y -> s y; det(s) = s.
El == 1..(P - 1)
Pt == 0..(P - 1)
InvF(s) == CHOOSE t \in El : (s * t) % P = 1
Md(x) == ((x % P) + P) % P
Sum(T, g(_)) == LET RECURSIVE acc(_)
                    acc(U) == IF U = {} THEN 0 ELSE LET x == CHOOSE x \in U : TRUE IN g(x) + acc(U \ {x})
                IN acc(T) % P
LiftK(w, s, z) == Md(InvF(s) * w[Md(InvF(s) * z)])
LiftF(w, x) == [y \in Pt, s \in El |-> Sum(Pt, LAMBDA z : x[z] * LiftK(w, s, Md(z - y)))]
FullK(w, s, t, z) == Md(InvF(s) * w[<<Md(InvF(s) * z), Md(InvF(s) * t)>>])
FullF(w, X) == [y \in Pt, s \in El |-> Sum(Pt \X El, LAMBDA u : X[u[1], u[2]] * FullK(w, s, u[2], Md(u[1] - y)))]
\* (b, g) moves points y to b + g y
MoveX(x, b, g) == [y \in Pt |-> x[Md(InvF(g) * (y - b))]]
MoveF(X, b, g) == [y \in Pt, s \in El |-> X[Md(InvF(g) * (y - b)), Md(InvF(g) * s)]]
Times(c, X) == [u \in Pt \X El |-> Md(c * X[u[1], u[2]])]
Delta(T, a) == [u \in T |-> IF u = a THEN 1 ELSE 0]
Commutes ==
  /\ \A a, c, b \in Pt, g \in El :
       LET x == Delta(Pt, a)
           w == Delta(Pt, c)
           L == LiftF(w, MoveX(x, b, g))
           L2 == Times(InvF(g), MoveF(LiftF(w, x), b, g))
       IN \A u \in Pt \X El : L[u[1], u[2]] = L2[u]
  /\ \A a \in Pt \X El, c \in Pt \X El, g \in El :
       LET X == Delta(Pt \X El, a)
           w == Delta(Pt \X El, c)
           L == FullF(w, MoveF(X, 1, g))
           L2 == Times(InvF(g), MoveF(FullF(w, X), 1, g))
       IN \A u \in Pt \X El : L[u[1], u[2]] = L2[u]
ASSUME HISTORY \/ Commutes

-----------------------------------------------------------------------------
\* 3. Configurations, one choice at a time.
Fields == << "form", "dims", "D", "refs", "det", "mask", "kw", "groups", "ragged", "layout", "bias" >>
Options(x) ==
  CASE x = "form" -> Forms
    [] x = "dims" -> {<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 2>>}
    [] x = "D" -> {2, 3}
    [] x = "refs" -> {<<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 1>>, <<3, 0>>, <<1, 1, 2>>}
    [] x = "det" -> {"none", "flat", "column"}
    [] x = "mask" -> {"none", "zeros-and-ones", "any"}
    [] x = "kw" -> {"none", "space", "group", "both"}
    [] x = "groups" -> {1, 2}
    [] x = "ragged" -> {TRUE, FALSE}      \* kernel sizes differ by axis
    [] x = "layout" -> {"plain", "strided", "double"}
    [] x = "bias" -> {TRUE, FALSE}
Choose1 == /\ HISTORY
           /\ Cardinality(DOMAIN cfg) < Len(Fields)
           /\ LET n == Fields[Cardinality(DOMAIN cfg) + 1] IN \E x \in {RandomElement(Options(n))} : cfg' = Put(cfg, n, x)
           /\ UNCHANGED <<f, opt, vals, calls>>
Init == /\ f \in IF HISTORY THEN {"lift"} ELSE Forms
        /\ opt \in IF HISTORY THEN {[det |-> FALSE, mask |-> FALSE]} ELSE [det : BOOLEAN, mask : BOOLEAN]
        /\ vals = Given0 /\ calls = <<>> /\ cfg = <<>>
Next == (~HISTORY /\ Evaluate) \/ Choose1
Spec == Init /\ [][Next]_vars
Emit == HISTORY => (Cardinality(DOMAIN cfg) < Len(Fields) \/ PrintT(<<"HIST", ToJson(cfg)>>))
=============================================================================

------------------------------ MODULE MCOptions ------------------------------
(* Option records changed one option at a time.                              *)
EXTENDS Options, Json
CONSTANT REFL, DIM, DEPTH, HISTORY, SMALL
VARIABLES o, hist
vars == <<o, hist>>

GSizes == IF SMALL THEN {<<>>, <<0>>, <<2>>, <<0, 2>>, <<-1, 2>>, <<0, 0>>}
          ELSE {<<>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<3>>, <<6>>, <<9>>, <<16>>} \cup (IF REFL THEN {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 3>>, <<3, 1>>, <<-1, 2>>, <<2, -1>>, <<-1, 1>>, <<9, 2>>, <<4, 10>>} ELSE {})
Grids == IF SMALL THEN {<<>>, <<2, 1>>, <<0, 0>>}
         ELSE {<<>>, <<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<5, 0>>} \cup (IF REFL THEN {<<1, 2>>, <<3, 1>>, <<0, 2>>, <<2, 2>>} ELSE {})
Channels == IF SMALL THEN {1, 2} ELSE {1, 2, 3, 4}
GroupNos == IF SMALL THEN {<<>>, <<0>>, <<2>>} ELSE {<<>>, <<-2>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<3>>, <<4>>}
Strides == IF SMALL THEN {<<>>, <<2>>, <<1, 2>>} ELSE {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<3>>}
Dils == IF SMALL THEN {<<>>, <<2, 1>>} ELSE {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Pads == {<<"", <<>> >>, <<"amount", <<1>> >>, <<"amount", <<0, 1>> >>, <<"same", <<>> >>, <<"valid", <<>> >>, <<"full", <<>> >>}
        \cup (IF SMALL THEN {} ELSE {<<"amount", <<2>> >>, <<"amount", <<2, 1>> >>, <<"amount", <<0>> >>, <<"SAME", <<>> >>, <<"zeros", <<>> >>})
Modes == IF SMALL THEN {"", "reflect", "constant"} ELSE {"", "zeros", "reflect", "replicate", "circular", "constant", "same", "Zeros"}
Yes == {"", "yes", "no"}

\* with depth two: every combination of two options, everything else as by default
Pairs == HISTORY /\ DEPTH = 2

Base == [refl |-> REFL, dim |-> DIM, k |-> 3, in |-> 2, out |-> 2, groups |-> <<>>, gsize |-> <<>>, grid |-> <<>>, stride |-> <<>>,
         dil |-> <<>>, pad |-> "", amount |-> <<>>, mode |-> "", bias |-> "", mask |-> "", perm |-> ""]
Init == o = Base /\ hist = <<>>
Set(n) == /\ o' = n /\ n # o /\ (Pairs => Len(hist) < 2)
          /\ hist' = IF HISTORY THEN Append(hist, n) ELSE hist
SetSize == \E v \in GSizes : Set([o EXCEPT !.gsize = v])
SetGrid == \E v \in Grids : Set([o EXCEPT !.grid = v])
SetIn == \E v \in Channels : Set([o EXCEPT !.in = v])
SetOut == \E v \in Channels : Set([o EXCEPT !.out = v])
SetGroups == \E v \in GroupNos : Set([o EXCEPT !.groups = v])
SetStride == \E v \in Strides : Set([o EXCEPT !.stride = v])
SetDil == \E v \in Dils : Set([o EXCEPT !.dil = v])
SetPad == \E v \in Pads : Set([o EXCEPT !.pad = v[1], !.amount = v[2]])
SetMode == \E v \in Modes : Set([o EXCEPT !.mode = v])
SetK == ~SMALL /\ \E v \in 1..3 : Set([o EXCEPT !.k = v])
SetFlags == ~SMALL /\ ~Pairs /\ \E b, m, p \in {RandomElement(Yes)} : Set([o EXCEPT !.bias = b, !.mask = RandomElement(Yes), !.perm = RandomElement(Yes)])
\* several options at once, most of them legal
Jump == HISTORY /\ ~Pairs /\ Set([Base EXCEPT !.k = RandomElement(1..3), !.gsize = RandomElement({s \in GSizes : s = <<>> \/ (s[1] >= 0 /\ s[1] + s[Len(s)] > 0 /\ s[Len(s)] >= 0)}),
     !.grid = RandomElement(Grids \ {<<0, 0>>}), !.in = RandomElement(Channels), !.groups = RandomElement(GroupNos),
     !.out = RandomElement(Channels), !.stride = RandomElement(Strides), !.dil = RandomElement(Dils), !.mode = RandomElement(PadModes \cup {""}),
     !.pad = RandomElement({"", "valid", "same"}), !.bias = RandomElement(Yes), !.mask = RandomElement(Yes), !.perm = RandomElement(Yes)])
Next == SetSize \/ SetGrid \/ SetIn \/ SetOut \/ SetGroups \/ SetStride \/ SetDil \/ SetPad \/ SetMode \/ SetK \/ SetFlags \/ Jump
Spec == Init /\ [][Next]_vars

C == Complaints(o)
\* what is accepted can work
Works == C = {} =>
  /\ Sizes(o)[1] + Sizes(o)[2] >= 1
  /\ o.in \div Groups1(o) >= 1 /\ o.out \div Groups1(o) >= 1
  /\ Groups1(o) * (o.in \div Groups1(o)) = o.in
  /\ \A L \in 3..6 : LET g == GeoOf(o, L) IN
       /\ (PadName(o) = "same" => OutShape(g) = InShape(g))
       /\ (PadName(o) = "valid" => g = GeoOf([o EXCEPT !.pad = "amount", !.amount = <<0>>], L))
       /\ \A a \in 1..o.dim : OutSize(L, g[a].k, g[a].s, g[a].d, g[a].pl, g[a].pr) >= 0
\* a provided grid makes the size irrelevant; the order of reading defaults does not matter
GridWins == o.grid # <<>> => \A v \in GSizes : Sizes([o EXCEPT !.gsize = v]) = o.grid
\* leaving an option out is giving its default
Defaults == C = Complaints([o EXCEPT !.groups = Or(@, <<1>>), !.stride = Or(@, <<1>>), !.mode = Mode(o), !.gsize = Or(@, IF o.refl THEN <<4, 4>> ELSE <<4>>)])
\* a complaint is about the options it names: changing another does not cure or cause it
Others(c, p) == [c2 \in {"groups", "in", "out", "group kernel", "padding", "same with stride", "mode"} |-> IF c2 \in p THEN "" ELSE IF c2 \in c THEN "x" ELSE "o"]
About == [][LET B == Others(C, {}) 
                named == CASE o'.gsize # o.gsize \/ o'.grid # o.grid -> {"group kernel"}
                           [] o'.in # o.in -> {"in"}
                           [] o'.out # o.out -> {"out"}
                           [] o'.groups # o.groups -> {"groups", "in", "out"}
                           [] o'.stride # o.stride -> {"same with stride"}
                           [] o'.pad # o.pad -> {"padding", "same with stride"}
                           [] o'.mode # o.mode -> {"mode"}
                           [] OTHER -> {}
            IN Others(C, named) = Others(C', named)]_vars
Emit == HISTORY => (Len(hist) < DEPTH \/ PrintT(<<"HIST", ToJson(IF Pairs THEN o ELSE hist)>>))
=============================================================================

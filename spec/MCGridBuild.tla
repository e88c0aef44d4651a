----------------------------- MODULE MCGridBuild -----------------------------
(* Building a planar grid with a rotations and b reflections element by      *)
(* element: rotations first, each a step of N / a further than the last.     *)
(* Whatever the sizes, the result has the requested counts, no element twice,*)
(* and neighbouring elements of a class are one step apart.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N, MAXN
VARIABLES a, b, g
vars == <<a, b, g>>
Sizes == {n \in 0..MAXN : n = 0 \/ N % n = 0}
Init == a \in Sizes /\ b \in Sizes /\ g = <<>>
Rot == Len(g) < a /\ g' = Append(g, <<1, Len(g) * (N \div a)>>)
Ref == Len(g) >= a /\ Len(g) < a + b /\ g' = Append(g, <<-1, (Len(g) - a) * (N \div b)>>)
Next == (Rot \/ Ref) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Done == Len(g) = a + b
Range(s) == {s[i] : i \in 1..Len(s)}
NoneTwice == Cardinality(Range(g)) = Len(g)
InOrder == \A i, j \in 1..Len(g) : i < j => g[i][1] >= g[j][1]
InRange == \A i \in 1..Len(g) : g[i][2] \in 0..(N - 1)
Counts == Done => /\ Cardinality({i \in 1..Len(g) : g[i][1] = 1}) = a
                  /\ Cardinality({i \in 1..Len(g) : g[i][1] = -1}) = b
Gap(x, y) == LET d == (x - y) % N IN IF d < N - d THEN d ELSE N - d
Spread == Done => \A i, j \in 1..Len(g) : i # j /\ g[i][1] = g[j][1] =>
            Gap(g[i][2], g[j][2]) >= N \div (IF g[i][1] = 1 THEN a ELSE b)
StartsAtIdentity == Len(g) > 0 => g[1][2] = 0
=============================================================================

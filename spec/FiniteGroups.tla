---------------------------- MODULE FiniteGroups ----------------------------
(* Exact finite subgroups, and a machine with three registers working on     *)
(* them.  Elements are                                                       *)
(*   <<k>>           the rotation by k / N of a turn (planar)                *)
(*   <<c, k>>        the same with a reflection coefficient c = 1, -1        *)
(*   9-tuple         signed permutation matrix of determinant 1 (spatial)    *)
(*   10-tuple        the same with a coefficient in front                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT N              \* planar rotations by multiples of 1 / N of a turn

Perms3 == {<<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<1,3,2>>, <<3,2,1>>, <<2,1,3>>}
SPM(p, s) == [i \in 1..9 |-> LET r == (i - 1) \div 3 + 1
                                 c == ((i - 1) % 3) + 1
                             IN IF p[r] = c THEN s[r] ELSE 0]
IDet3(A) == A[1]*(A[5]*A[9]-A[6]*A[8]) - A[2]*(A[4]*A[9]-A[6]*A[7]) + A[3]*(A[4]*A[8]-A[5]*A[7])
SignedPerms == {SPM(p, s) : p \in Perms3, s \in {<<a, b, c>> : a \in {1, -1}, b \in {1, -1}, c \in {1, -1}}}
Octahedral == {A \in SignedPerms : IDet3(A) = 1}

IMatMul(A, B) == [i \in 1..9 |-> LET r == 3 * ((i - 1) \div 3)
                                     c == ((i - 1) % 3) + 1
                                 IN A[r + 1] * B[c] + A[r + 2] * B[c + 3] + A[r + 3] * B[c + 6]]
ITrans(A) == << A[1], A[4], A[7], A[2], A[5], A[8], A[3], A[6], A[9] >>

Elements(g) == CASE g = "so2" -> {<<k>> : k \in 0..(N - 1)}
                 [] g = "o2" -> {<<c, k>> : c \in {1, -1}, k \in 0..(N - 1)}
                 [] g = "so3" -> Octahedral
                 [] g = "o3" -> {<<c>> \o A : c \in {1, -1}, A \in Octahedral}
One(g) == CASE g = "so2" -> <<0>> [] g = "o2" -> <<1, 0>>
            [] g = "so3" -> <<1,0,0,0,1,0,0,0,1>> [] g = "o3" -> <<1,1,0,0,0,1,0,0,0,1>>
GMul(g, a, b) == CASE g = "so2" -> << (a[1] + b[1]) % N >>
                   [] g = "o2" -> << a[1] * b[1], (a[2] + b[2]) % N >>
                   [] g = "so3" -> IMatMul(a, b)
                   [] g = "o3" -> << a[1] * b[1] >> \o IMatMul(Tail(a), Tail(b))
GInv(g, a) == CASE g = "so2" -> << (-a[1]) % N >>
                [] g = "o2" -> << a[1], (-a[2]) % N >>
                [] g = "so3" -> ITrans(a)
                [] g = "o3" -> << a[1] >> \o ITrans(Tail(a))
GDet(g, a) == IF g \in {"o2", "o3"} THEN a[1] ELSE 1

-----------------------------------------------------------------------------
(* The register machine: st = [g |-> group, r |-> <<x, y, z>>].              *)
Acts == [op : {"mul"}, d : 1..3, a : 1..3, b : 1..3] \cup [op : {"inv"}, d : 1..3, a : 1..3, b : {0}]
Apply(st, act) ==
  [st EXCEPT !.r[act.d] = IF act.op = "mul" THEN GMul(st.g, st.r[act.a], st.r[act.b])
                          ELSE GInv(st.g, st.r[act.a])]
=============================================================================

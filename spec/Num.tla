-------------------------------- MODULE Num --------------------------------
(* Fixed-point arithmetic on TLC's 32-bit integers.                          *)
(*                                                                           *)
(* Reals are integers at a stated scale.  Unless said otherwise matrix       *)
(* entries, quaternion components, cosines and so on have scale S = 10^4 and *)
(* angles scale 10^5 (a full turn is FT).  BADV stands for a recorded value  *)
(* that is not a finite number of sensible size.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

S == 10000
FT == 628319
BADV == 2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* Nearest integer to a / b, b > 0, without overflow for |a| up to 2^31 - b.
RDiv(a, b) == (a + (b \div 2)) \div b

Near(x, y, tol) == Abs(x - y) <= tol
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, s[1], s)
MinSeq(s) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, s[1], s)
Bounded(s, B) == \A i \in 1..Len(s) : s[i] <= B /\ s[i] >= -B
Finite(s) == \A i \in 1..Len(s) : s[i] # BADV
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
\* sum of f(i) for i in 1..n
SumFn(n, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])

\* Largest r with r * r <= n, for 0 <= n < 2^31.
RECURSIVE ISqrtBin(_, _, _)
ISqrtBin(n, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtBin(n, m, hi) ELSE ISqrtBin(n, lo, m)
ISqrt(n) == ISqrtBin(n, 0, 46341)
\* Nearest integer to the square root.
RSqrt(n) == LET r == ISqrt(n) IN IF n - r * r > r THEN r + 1 ELSE r

-----------------------------------------------------------------------------
(* Trigonometry: sine of whole degrees at scale 10^6, plus a second order    *)
(* expansion around the nearest degree.                                      *)
SinTab == << 0, 17452, 34899, 52336, 69756, 87156, 104528, 121869, 139173, 156434, 173648, 190809,
  207912, 224951, 241922, 258819, 275637, 292372, 309017, 325568, 342020, 358368, 374607, 390731,
  406737, 422618, 438371, 453990, 469472, 484810, 500000, 515038, 529919, 544639, 559193, 573576,
  587785, 601815, 615661, 629320, 642788, 656059, 669131, 681998, 694658, 707107, 719340, 731354,
  743145, 754710, 766044, 777146, 788011, 798636, 809017, 819152, 829038, 838671, 848048, 857167,
  866025, 874620, 882948, 891007, 898794, 906308, 913545, 920505, 927184, 933580, 939693, 945519,
  951057, 956305, 961262, 965926, 970296, 974370, 978148, 981627, 984808, 987688, 990268, 992546,
  994522, 996195, 997564, 998630, 999391, 999848, 1000000 >>
SinDeg(d) == LET m == d % 360 IN
  IF m <= 90 THEN SinTab[m + 1]
  ELSE IF m <= 180 THEN SinTab[181 - m]
  ELSE IF m <= 270 THEN -SinTab[m - 179]
  ELSE -SinTab[361 - m]
CosDeg(d) == SinDeg(d + 90)

\* angle at scale 10^5, result at scale 10^6
Sin6(a0) == LET a == a0 % FT
                d == RDiv(a * 1000, 1745329)
                r == a - RDiv(d * 1745329, 1000)
                sd == SinDeg(d)
                cd == CosDeg(d)
            IN sd + RDiv(cd * r, 100000) - RDiv(sd * ((r * r) \div 2000), 10000000)
Cos6(a0) == LET a == a0 % FT
                d == RDiv(a * 1000, 1745329)
                r == a - RDiv(d * 1745329, 1000)
                sd == SinDeg(d)
                cd == CosDeg(d)
            IN cd - RDiv(sd * r, 100000) - RDiv(cd * ((r * r) \div 2000), 10000000)
SinA(a) == RDiv(Sin6(a), 100)
CosA(a) == RDiv(Cos6(a), 100)

\* Distance of two angles modulo a full turn.
AngDist(a, b) == LET d == (a - b) % FT IN Min2(d, FT - d)

-----------------------------------------------------------------------------
(* 2^(-x): x at scale 10^4, result at scale 10^6.                            *)
Exp2Tab == << 1000000, 989228, 978572, 968031, 957603, 947288, 937084, 926990, 917004, 907126, 897355, 887688,
  878126, 868667, 859310, 850053, 840896, 831838, 822878, 814014, 805245, 796571, 787990, 779502,
  771105, 762799, 754582, 746454, 738413, 730459, 722590, 714807, 707107, 699490, 691955, 684501,
  677128, 669834, 662618, 655481, 648420, 641435, 634525, 627690, 620929, 614240, 607624, 601078,
  594604, 588198, 581862, 575595, 569394, 563261, 557193, 551191, 545254, 539380, 533570, 527823,
  522137, 516512, 510949, 505445, 500000 >>
RECURSIVE Halve(_, _)
Halve(v, n) == IF n = 0 THEN v ELSE IF v = 0 THEN 0 ELSE Halve(RDiv(v, 2), n - 1)
Exp2Neg(x) == LET n == x \div S
                  f == x % S                  \* fractional part, scale 10^4
                  k == (f * 64) \div S         \* 0..63
                  g == f * 64 - k * S          \* rest, scale 64 * 10^4
                  lo == Exp2Tab[k + 1]
                  hi == Exp2Tab[k + 2]
              IN IF n > 24 THEN 0
                 ELSE Halve(lo - RDiv((lo - hi) * (g \div 10), S \div 10), n)

-----------------------------------------------------------------------------
(* Shapes and layout.                                                        *)
Size(shape) == ProdSeq(shape)
\* Broadcast of two shapes; <<-1>> when they do not broadcast.
Broadcast(s, t) ==
  LET n == Max2(Len(s), Len(t))
      at(u, i) == IF i <= n - Len(u) THEN 1 ELSE u[i - (n - Len(u))]
      ok == \A i \in 1..n : at(s, i) = at(t, i) \/ at(s, i) = 1 \/ at(t, i) = 1
  IN IF ok THEN [i \in 1..n |-> IF at(s, i) = 1 THEN at(t, i) ELSE at(s, i)] ELSE <<-1>>
\* 0-based flat index in a tensor of shape s of the entry that broadcasting to shape
\* "full" puts at 0-based flat position p.
RECURSIVE BIdx(_, _, _)
BIdx(s, full, p) ==
  IF Len(s) = 0 THEN 0
  ELSE LET d == full[Len(full)]
           here == IF s[Len(s)] = 1 THEN 0 ELSE p % d
       IN BIdx(SubSeq(s, 1, Len(s) - 1), SubSeq(full, 1, Len(full) - 1), p \div d) * s[Len(s)] + here
\* Row-major flat index of a 0-based index vector.
Flat(shape, ix) == FoldLeft(LAMBDA a, i : a * shape[i] + ix[i], 0, [i \in 1..Len(shape) |-> i])
\* 0-based index vector of a 0-based flat position.
RECURSIVE Unflat(_, _)
Unflat(shape, p) == IF Len(shape) = 0 THEN <<>>
                    ELSE Append(Unflat(SubSeq(shape, 1, Len(shape) - 1), p \div shape[Len(shape)]),
                                p % shape[Len(shape)])
Cat(s, t) == s \o t

\* The set of those clauses <<name, holds>> that do not hold.
Failing(cs) == {cs[i][1] : i \in {j \in 1..Len(cs) : ~cs[j][2]}}
=============================================================================

-------------------------------- MODULE Fine --------------------------------
(* Numbers between -1.1 and 1.1 with eight digits: scale 10^8.  Products are *)
(* taken in two halves of four digits each, since integers have 32 bits.     *)
EXTENDS Integers, Sequences

FS == 100000000
FAbs(a) == IF a < 0 THEN -a ELSE a
FSmall(a) == FAbs(a) <= 110000000
\* product of two such numbers, to within two units
FMul(a, b) ==
  LET x == FAbs(a)
      y == FAbs(b)
      xh == x \div 10000
      xl == x % 10000
      yh == y \div 10000
      yl == y % 10000
      p == (xh * yh) + ((xh * yl + xl * yh) \div 10000)
  IN IF (a < 0) = (b < 0) THEN p ELSE -p
FDot(a, b) == FMul(a[1], b[1]) + FMul(a[2], b[2]) + FMul(a[3], b[3]) + FMul(a[4], b[4])
FQMul(a, b) ==
  << FMul(a[1], b[1]) - FMul(a[2], b[2]) - FMul(a[3], b[3]) - FMul(a[4], b[4]),
     FMul(a[1], b[2]) + FMul(a[2], b[1]) + FMul(a[3], b[4]) - FMul(a[4], b[3]),
     FMul(a[1], b[3]) - FMul(a[2], b[4]) + FMul(a[3], b[1]) + FMul(a[4], b[2]),
     FMul(a[1], b[4]) + FMul(a[2], b[3]) - FMul(a[3], b[2]) + FMul(a[4], b[1]) >>
FQConj(a) == << a[1], -a[2], -a[3], -a[4] >>
FNear(a, b, t) == \A i \in 1..4 : FAbs(a[i] - b[i]) <= t
\* the same rotation: equal up to the sign
FSame(a, b, t) == FNear(a, b, t) \/ FNear(a, << -b[1], -b[2], -b[3], -b[4] >>, t)
FUnit(a, t) == (\A i \in 1..4 : FSmall(a[i])) /\ FAbs(FDot(a, a) - FS) <= t
=============================================================================

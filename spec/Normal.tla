------------------------------- MODULE Normal -------------------------------
(* Normalisation and activation of feature maps.                             *)
(* Values are integers; eps has scale 10^5, running statistics 10^4, results  *)
(* 10^3.                                                                     *)
EXTENDS Num

Sum(v) == SumSeq(v)
Sum2(v) == FoldLeft(LAMBDA a, b : a + b * b, 0, v)
\* n^2 times the variance of n values, an integer.
NVar(v) == Len(v) * Sum2(v) - Sum(v) * Sum(v)
\* n * sqrt(var + eps) at scale sqrt(20000); its size is also a measure of the precision.
SqOf(v, eps) == LET n == Len(v) IN RSqrt((NVar(v) * 1000 + RDiv(n * n * eps, 100)) * 20)
\* (x - mean) / sqrt(var + eps) with the statistics of v.
Standard(v, x, sq) == IF sq = 0 THEN 0 ELSE RDiv((Len(v) * x - Sum(v)) * 141421, sq)
\* The same with running statistics rm and rv.
SqRun(rv, eps) == LET v == rv + RDiv(eps, 10)
                  IN IF v < 400000 THEN RSqrt(v * 5000) ELSE 2 * RSqrt(RDiv(v, 4) * 5000)  \* 32 bits
StandardRun(rm, x, sq) == RDiv((10000 * x - rm) * 7071, 10 * sq)
\* y is w * r + b, where r has an error of about one in sq.
Affine(y, r, sq, w, b) == Near(y, w * r + 1000 * b, 3 + Abs(w) * (2 + (2 * Abs(r)) \div Max2(sq, 1)))

\* A running statistic after a batch with statistic num / den; the momentum is m[1] / m[2].
Moving(old, m, num, den, new) ==
  LET stat == RDiv(num * 10000, den)
  IN Near(m[2] * new, (m[2] - m[1]) * old + m[1] * stat, 2 * m[2])

\* Activations of the integers from -6 to 6, at scale 10^6.
GeluTab == << 0, -1, -127, -4050, -45500, -158655, 0, 841345, 1954500, 2995950, 3999873, 4999999, 6000000 >>
GeluTanhTab == << 0, 0, -70, -3637, -45402, -158808, 0, 841192, 1954598, 2996363, 3999930, 5000000, 6000000 >>
\* f: name, a and b: parameters at scale 100; result at scale 10^4
Applied(f, a, b, x) ==
  CASE f = "relu" -> 10000 * Max2(x, 0)
    [] f = "gelu" -> RDiv(GeluTab[x + 7], 100)
    [] f = "tanhgelu" -> RDiv(GeluTanhTab[x + 7], 100)
    [] f = "leaky" -> IF x >= 0 THEN 10000 * x ELSE 100 * a * x
    [] f = "clamp" -> Max2(100 * a, Min2(100 * b, 10000 * x))
    [] f = "linear" -> 100 * (a * x + b)
    [] f = "square" -> 10000 * x * x
=============================================================================

----------------------------- MODULE OutputGrid -----------------------------
(* The list of elements a layer returns next to its features.                *)
EXTENDS Kernels

InvRow(kd, a) == << a[1] >> \o (IF kd = "angle" THEN << -a[2] >> ELSE QConj(Tail(a)))
ProdRow(kd, a, b) == << a[1] * b[1] >> \o (IF kd = "angle" THEN << a[2] + b[2] >> ELSE QMul(Tail(a), Tail(b)))
SameRow(kd, a, b, tol) ==
  /\ a[1] = b[1]
  /\ IF kd = "angle" THEN AngDist(a[2], b[2]) <= 2 * tol ELSE SSin(kd, a, b) <= tol
SameList(kd, A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : SameRow(kd, A[i], B[i], tol)
\* The element by which b was multiplied from the left to become a.
Factor(kd, a, b) == ProdRow(kd, a, InvRow(kd, b))
OneFactor(kd, A, B, tol) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : SameRow(kd, Factor(kd, A[i], B[i]), Factor(kd, A[1], B[1]), tol)

\* Which list a layer starts from: the requested one, or its default.  Layers of groups without
\* reflections go on with the elements of their input.
BaseOf(form, refl, req, deflt, ins) == IF req # <<>> THEN req ELSE IF form = "lift" \/ refl THEN deflt ELSE ins

\* A rough place of an element, to see that draws cover the group: the quadrant of an angle or
\* the dominant component of a quaternion.
Place(kd, a) == IF kd = "angle" THEN ((a[2] % FT) * 4) \div (FT + 4)
                ELSE CHOOSE i \in 2..5 : \A j \in 2..5 : Abs(a[i]) >= Abs(a[j])
=============================================================================

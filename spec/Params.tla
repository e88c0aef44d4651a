------------------------------- MODULE Params -------------------------------
(* What an element of each parameterization denotes.                         *)
EXTENDS Groups

\* angle: <<a>>; euclid2: unit vector in the plane; so2m; euler; quat; so3m;
\* thx, thy, thz: angle about a coordinate axis; sph: <<beta, gamma>>; vec3
PShape(p) == CASE p = "angle" -> <<1>> [] p = "euclid2" -> <<2>> [] p = "so2m" -> <<2, 2>>
               [] p = "euler" -> <<3>> [] p = "quat" -> <<4>> [] p = "so3m" -> <<3, 3>>
               [] p \in {"thx", "thy", "thz"} -> <<>> [] p = "sph" -> <<2>> [] p = "vec3" -> <<3>>
\* Recorded values that can be an element at all (bounds keep the arithmetic in range).
PSane(p, a) == CASE p \in {"angle", "euler", "thx", "thy", "thz", "sph"} -> Bounded(a, 100000000)
                 [] OTHER -> Bounded(a, 2 * S)
PUnit(p, a, tol) == CASE p = "quat" -> Near(RDiv(Dot(a, a, 4), S), S, tol)
                      [] p = "vec3" -> Near(RDiv(Dot(a, a, 3), S), S, tol)
                      [] p = "euclid2" -> Near(RDiv(Dot(a, a, 2), S), S, tol)
                      [] OTHER -> TRUE
\* Planar rotations and directions denote a 2x2 matrix, spatial ones a 3x3 matrix, points
\* of the sphere a unit vector.
Den(p, a) == CASE p = "angle" -> Rot2(a[1])
               [] p = "euclid2" -> << a[1], -a[2], a[2], a[1] >>
               [] p = "so2m" -> a
               [] p = "euler" -> EulerMat(a)
               [] p = "quat" -> QMat(a)
               [] p = "so3m" -> a
               [] p = "thx" -> RotX(a[1]) [] p = "thy" -> RotY(a[1]) [] p = "thz" -> RotZ(a[1])
               [] p = "sph" -> SphereVec(a)
               [] p = "vec3" -> a
\* The direction in which a rotation turns the north pole.
Pole(m) == << m[3], m[6], m[9] >>
=============================================================================

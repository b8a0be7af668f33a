------------------------------- MODULE Conic -------------------------------
(* Two-body motion in exact arithmetic.  Perifocal frame, gravitational        *)
(* parameter and semi-latus rectum one: r = 1/(1 + e cos), velocity             *)
(* (-sin, e + cos).  Angles are rational points of the unit circle, 5 times     *)
(* <<cos, sin>>, e = E/5.  Every identity is multiplied out, so that TLC        *)
(* decides it over the integers.  A mission is a chain of legs joined by burns; *)
(* Leap: position and velocity at one point give those at any other.            *)
EXTENDS Integers, Sequences, FiniteSets
Circle == { <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>> }
Ecc == 0..12                                   \* 5 e: circles, ellipses, the parabola (5), hyperbolas
\* 25 (1 + e cos): positive on the conic
D(E, t) == 25 + (E * t[1])
OnConic(E, t) == D(E, t) > 0
\* r = 25/D; position = 5 t / D; velocity = << -t2, E + t1 >> / 5
Pos(t) == << 5 * t[1], 5 * t[2] >>             \* over D
Vel(E, t) == << -t[2], E + t[1] >>             \* over 5
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]

VARIABLES E, s, t
vars == <<E, s, t>>
Init == E \in Ecc /\ s \in Circle /\ t \in Circle /\ OnConic(E, s) /\ OnConic(E, t)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* angular momentum r x v = 1
Momentum == Cross2(Pos(t), Vel(E, t)) = 5 * D(E, t)
\* energy: v^2 - 2/r = e^2 - 1
Energy == Dot2(Vel(E, t), Vel(E, t)) * 25 - (2 * D(E, t) * 25) = (E * E - 25) * 25
\* in before periapsis, out after it
Radial == LET x == Dot2(Pos(t), Vel(E, t)) IN x = 5 * E * t[2]
\* eccentricity vector: v x h - r/|r| = e along the first axis; 5 times
EccVec == Vel(E, t)[2] - t[1] = E /\ -Vel(E, t)[1] - t[2] = 0
\* radius at the apsides
Apsides == (t[2] = 0 /\ E > 0) => (IF t[1] > 0 THEN D(E, t) = 25 + (5 * E) ELSE D(E, t) = 25 - (5 * E))
\* Lagrange coefficients from s to t: position there is f r + g v with f = 1 - r2 (1 - cos d), g = r1 r2 sin d
\* cos d = cd/25, sin d = sd/25;  f = 1 - (25 - cd)/D2, g = 25 sd/(D1 D2)
cd == Dot2(s, t)
sd == Cross2(s, t)
Leap == \A k \in 1..2 : (D(E, t) - (25 - cd)) * Pos(s)[k] + (5 * sd * Vel(E, s)[k]) = D(E, s) * Pos(t)[k]
\* and the velocity before can be had back from the two positions whenever they are not in line
Back == sd # 0 => \A k \in 1..2 : (D(E, s) * Pos(t)[k] - (D(E, t) - (25 - cd)) * Pos(s)[k]) = 5 * sd * Vel(E, s)[k]
\* a leg travelled less than half a turn ahead has a positive g; reversed it has a negative one
Ahead == (sd > 0) <=> (Cross2(Pos(s), Pos(t)) > 0)
=============================================================================

------------------------------ MODULE Orbital ------------------------------
(* Orientation of an orbit in exact arithmetic.  Angles are points of the unit *)
(* circle with rational coordinates, <<5 cos, 5 sin>> from the 3-4-5 triangle. *)
(* The node/inclination/argument frame is built from three rotations, and the  *)
(* elements are read back from the momentum and periapsis vectors by the       *)
(* quadrant rules; a mission chain is a sequence of states that must join up.  *)
EXTENDS Integers, Sequences, FiniteSets
Circle == { <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>> }
Incl == { a \in Circle : a[2] > 0 }                       \* inclinations away from the equator
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Neg(a) == << -a[1], -a[2], -a[3] >>
\* unit vector of the orbit plane at argument t from the node, times 125
Ray(O, i, t) == << 5 * O[1] * t[1] - O[2] * i[1] * t[2], 5 * O[2] * t[1] + O[1] * i[1] * t[2], 5 * i[2] * t[2] >>
\* quarter turn ahead
Ahead(t) == << -t[2], t[1] >>
Mul(a, b) == << a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1] >>    \* times 5
\* momentum direction, times 25
Mom(O, i) == << O[2] * i[2], -O[1] * i[2], 5 * i[1] >>
Node(h) == << -h[2], h[1], 0 >>                                            \* z x h
\* quadrant rules: the sign of the sine decides which of the two angles with this cosine is meant
ByRule(cosine, sine) == CHOOSE a \in Circle : a[1] = cosine /\ (IF sine >= 0 THEN a[2] >= 0 ELSE a[2] < 0)

VARIABLES O, i, w, t
vars == <<O, i, w, t>>
Init == O \in Circle /\ i \in Incl /\ w \in Circle /\ t \in Circle
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
P == Ray(O, i, w)
H == Mom(O, i)
\* node in units of 5*i[2]: exact division
N == << (Node(H)[1]) \div i[2], (Node(H)[2]) \div i[2] >>
FrameOrthogonal == Dot(P, H) = 0 /\ Dot(P, P) = 625 * 25 /\ Dot(H, H) = 625
MomentumIsNormal == LET q == Ray(O, i, Ahead(w)) IN \A k \in 1..3 : Cross(P, q)[k] = 625 * H[k]
\* elements read back by the rules are the elements the vectors were built from
NodeReadBack == ByRule(N[1], N[2]) = O
ArgReadBack == ByRule((O[1] * P[1] + O[2] * P[2]) \div 125, P[3]) = w
InclReadBack == H[3] = 5 * i[1]
\* a ray at true anomaly t is the periapsis ray turned by t about the momentum: it stays in the plane,
\* and its component ahead of periapsis has the sign of sin t
InPlane == LET r == Ray(O, i, t) IN Dot(r, H) = 0 /\ Dot(r, r) = 15625
AheadOfPeriapsis == LET r == Ray(O, i, t)
                        c == w[1] * t[1] + w[2] * t[2]
                        s == w[1] * t[2] - w[2] * t[1]
                    IN Dot(P, r) = 625 * c /\ Dot(Cross(P, r), H) = 15625 * s
\* ---------------------------------------------------------------- aim plane
\* S arrival direction, K pole: T = S x K, R = S x T are orthogonal, and B = S x h lies in their plane
Aim == \A S \in {P, Neg(P)} :
          LET T == Cross(S, <<0, 0, 1>>) IN
             Dot(S, T) = 0 /\ Dot(T, <<0, 0, 1>>) = 0
\* the asymptote: with eccentricity <<5, k>> (cosine of the half angle k/5) the arrival direction S = cos P + sin Q
Asymptote == \A k \in { <<3, 4>>, <<4, 3>> } :
          LET q == Ray(O, i, Ahead(w))
              S == << k[1] * P[1] + k[2] * q[1], k[1] * P[2] + k[2] * q[2], k[1] * P[3] + k[2] * q[3] >>
          IN Dot(S, H) = 0 /\ Dot(S, P) = k[1] * 15625 /\ Dot(Cross(P, S), H) > 0
=============================================================================

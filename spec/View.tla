------------------------------- MODULE View -------------------------------
(* Geometry of sight on an integer lattice, decided exactly.                   *)
(*  - a lander turns with its planet by quarter turns, in the planet's sense;   *)
(*    its target is seen exactly while it is above the local horizon            *)
(*  - the line from a point outside a sphere in direction n meets the sphere    *)
(*    exactly when the sphere's centre lies ahead and the line passes closer    *)
(*    than the radius: Blocked (the rule) against Meets (the definition)        *)
(*  - data is delivered only while in sight and scheduled                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rad, Span, MaxT
Box == -Span..Span
Vec == { <<x, y, z>> : x \in Box, y \in Box, z \in {-1, 0, 2} }
Dirs == { <<x, y, z>> : x \in -2..2, y \in -2..2, z \in -1..1 } \ { <<0, 0, 0>> }
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Outside(a) == Dot(a, a) > Rad * Rad
\* squared distance of the line from the centre, times |n|^2
Miss(a, n) == (Dot(a, a) * Dot(n, n)) - (Dot(a, n) * Dot(a, n))
Blocked(a, n) == Dot(a, n) < 0 /\ Miss(a, n) < Rad * Rad * Dot(n, n)
\* some point a + (k/|n|^2) n, k >= 0, lies inside; the closest one is k = -a.n
Meets(a, n) == \E k \in {0, -Dot(a, n)} : k >= 0 /\ LET m == Dot(n, n)
                                                        p == << m * a[1] + k * n[1], m * a[2] + k * n[2], m * a[3] + k * n[3] >>
                                                    IN Dot(p, p) < Rad * Rad * m * m
Quarter(p, s) == IF s > 0 THEN << -p[2], p[1], p[3] >> ELSE << p[2], -p[1], p[3] >>
Above(p, n) == Dot(p, n) > 0
VARIABLES a, n, sense, pos, t, seen, on, volume
vars == <<a, n, sense, pos, t, seen, on, volume>>
Landers == { <<3, 0, 1>>, <<2, 1, -2>>, <<0, 0, 3>> }
\* the line of sight of an orbiter and the turning of a lander do not depend on each other
Init == /\ \/ a \in { x \in Vec : Outside(x) } /\ sense = 1 /\ pos = <<3, 0, 1>>
           \/ a = <<Rad + 1, 0, 0>> /\ sense \in {-1, 1} /\ pos \in Landers
        /\ n \in Dirs /\ t = 0 /\ seen = << Above(pos, n) >> /\ on \in {FALSE, TRUE} /\ volume = << 0 >>
Tick == /\ t < MaxT /\ a = <<Rad + 1, 0, 0>> /\ t' = t + 1 /\ pos' = Quarter(pos, sense)
        /\ seen' = Append(seen, Above(pos', n))
        /\ on' \in {FALSE, TRUE}
        /\ volume' = Append(volume, volume[t + 1] + (IF seen[t + 1] /\ on THEN 1 ELSE 0) + (IF seen'[t + 2] /\ on' THEN 1 ELSE 0))
        /\ UNCHANGED <<a, n, sense>>
Spec == Init /\ [][Tick]_vars
RuleIsDefinition == Blocked(a, n) <=> Meets(a, n)
OneEntryPerTime == Len(seen) = t + 1 /\ Len(volume) = t + 1
LatitudeStays == \E q \in Landers : pos[3] = q[3] /\ Dot(pos, pos) = Dot(q, q)
OneTurnIsFour == t >= 4 => seen[5] = seen[1]
\* the mirrored planet turning the other way sees the mirrored target at the same times
Mirror == LET m == << n[1], -n[2], n[3] >> IN
          \A k \in 0..t : \A q \in Landers : q[2] = 0 =>
             LET Turn[j \in 0..k] == IF j = 0 THEN q ELSE Quarter(Turn[j - 1], 1)
                 Other[j \in 0..k] == IF j = 0 THEN q ELSE Quarter(Other[j - 1], -1)
             IN Above(Turn[k], n) <=> Above(Other[k], m)
VolumeNeverFalls == \A k \in 1..(Len(volume) - 1) : volume[k] <= volume[k + 1] /\ volume[k + 1] - volume[k] <= 2
NothingUnseen == \A k \in 1..(Len(volume) - 1) : (~seen[k] /\ ~seen[k + 1]) => volume[k] = volume[k + 1]
=============================================================================

------------------------------ MODULE Dynamics ------------------------------
(* The laws a flight obeys, as a ledger in exact arithmetic.                  *)
(* A flight is a sequence of steps; in each step conservative forces exchange *)
(* kinetic and potential energy (in the rotating frame), drag takes energy    *)
(* away, and lift turns the path: its component in the vertical plane has the *)
(* sign of cos(bank), its sideways component the sign of sin(bank), and its   *)
(* size is proportional to lift over drag.  Orbits: a state at an apsis.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Steps, MaxE

Banks == 0..7                        \* eighths of a turn
Cos8(b) == CASE b \in {0} -> 2 [] b \in {1, 7} -> 1 [] b \in {2, 6} -> 0 [] b \in {3, 5} -> -1 [] b = 4 -> -2
Sin8(b) == Cos8((b + 6) % 8)
VARIABLES kin, pot, lost, up, side, pos, vel, air, ld, bank, n
vars == <<kin, pot, lost, up, side, pos, vel, air, ld, bank, n>>
Init == /\ kin \in 1..MaxE /\ pot = 0 /\ lost = 0 /\ up = 0 /\ side = 0 /\ pos = 0 /\ vel = 1
        /\ air \in {0, 1, 2} /\ ld \in {0, 1, 2} /\ bank \in Banks /\ n = 0
\* drag work of a step: none in a vacuum, never negative, never more than there is
Step == /\ n < Steps /\ n' = n + 1
        /\ \E x \in -1..1, d \in 0..air :
              /\ kin + x - d >= 0
              /\ kin' = kin + x - d /\ pot' = pot - x /\ lost' = lost + d
              /\ up' = up + air * ld * Cos8(bank) /\ side' = side + air * ld * Sin8(bank)
        /\ pos' = pos + vel /\ \E v \in 1..2 : vel' = v
        /\ UNCHANGED <<air, ld, bank>>
Next == Step
Spec == Init /\ [][Next]_vars
Total == kin + pot
EnergyConstantInVacuum == [][air = 0 => Total' = Total]_vars
EnergyOnlyFalls == [][Total' <= Total]_vars
Balance == [][Total - Total' = lost' - lost]_vars
LiftDoesNoWork == [][ld > 0 /\ lost' = lost => Total' = Total]_vars
TurnsTheRightWay == /\ (bank = 0 => up >= 0 /\ side = 0) /\ (bank = 4 => up <= 0 /\ side = 0)
                    /\ (bank \in 1..3 => side >= 0) /\ (bank \in 5..7 => side <= 0)
                    /\ (bank = 2 => up = 0)
NoTurnWithoutLift == ld * air = 0 => up = 0 /\ side = 0
Proportional == up = n * air * ld * Cos8(bank) /\ side = n * air * ld * Sin8(bank)

\* ---------------------------------------------------------------- orbits, exactly
\* two-body orbit with apsides ra >= rp about a body with GM = 1: squares of the apsidal speeds as rationals
Va2(ra, rp) == <<2 * rp, ra * (ra + rp)>>
Vp2(ra, rp) == <<2 * ra, rp * (ra + rp)>>
\* energy from a radius and a squared speed: v2/2 - 1/r = (num)/(den)
EnergyAt(r, v2) == <<v2[1] * r - 2 * v2[2], 2 * v2[2] * r>>
EqR(x, y) == x[1] * y[2] = y[1] * x[2]
LessR(x, y) == x[1] * y[2] < y[1] * x[2]
R == 1..6
VisViva == \A ra, rp \in R : rp <= ra => EqR(EnergyAt(ra, Va2(ra, rp)), <<-1, ra + rp>>) /\ EqR(EnergyAt(rp, Vp2(ra, rp)), <<-1, ra + rp>>)
\* angular momentum squared is the same at both apsides
SameH == \A ra, rp \in R : rp <= ra => EqR(<<ra * ra * Va2(ra, rp)[1], Va2(ra, rp)[2]>>, <<rp * rp * Vp2(ra, rp)[1], Vp2(ra, rp)[2]>>)
\* raising the periapsis costs speed at the apoapsis; raising the apoapsis costs speed at the periapsis
RaiseCosts == \A ra, rp, tp \in R : rp <= ra /\ tp <= ra =>
                 (rp < tp => LessR(Va2(ra, rp), Va2(ra, tp))) /\ (rp = tp => EqR(Va2(ra, rp), Va2(ra, tp)))
ApoCosts == \A ra, rp, ta \in R : rp <= ra /\ rp <= ta => (ra < ta => LessR(Vp2(ra, rp), Vp2(ta, rp)))
Orbits == VisViva /\ SameH /\ RaiseCosts /\ ApoCosts
=============================================================================

------------------------------ MODULE Corridor ------------------------------
(* A corridor search: bisection between two entry angles for the boundary    *)
(* between flights on the High side of a target (apoapsis at or above it, or *)
(* escape) and flights on the Low side (below it, or lost in the atmosphere).*)
(* Angles are grid points 0..N; the side of every angle is arbitrary, not    *)
(* assumed monotone; the bracket may be given in either order.               *)
EXTENDS Integers, FiniteSets

CONSTANTS N, Tols, Brackets       \* Brackets: set of <<low guess, high guess>>
High == -1
Low == 1
Angles == 0..N
AllBrackets == Angles \X Angles

\* side of one flight, from what its end state says
Side(lost, escapes, apoVsTarget) ==
    IF lost THEN Low ELSE IF escapes \/ apoVsTarget >= 0 THEN High ELSE Low
\* a capture test
Captured(energySign) == IF energySign < 0 THEN -1 ELSE 1

Dist(a, b) == IF a < b THEN b - a ELSE a - b

VARIABLES side, br, tol, lo, hi, st, res
vars == <<side, br, tol, lo, hi, st, res>>

Init == /\ side \in [Angles -> {High, Low}]
        /\ br \in Brackets /\ tol \in Tols
        /\ lo = br[1] /\ hi = br[2]
        /\ st = "start" /\ res = -1
Start == /\ st = "start"
         /\ IF side[lo] # side[hi] THEN st' = "search" /\ res' = res
            ELSE st' = "failed" /\ res' = -1
         /\ UNCHANGED <<side, br, tol, lo, hi>>
Halve == /\ st = "search" /\ Dist(lo, hi) > tol
         /\ LET m == (lo + hi) \div 2 IN
              IF side[lo] # side[m] THEN hi' = m /\ lo' = lo
              ELSE lo' = m /\ hi' = hi
         /\ UNCHANGED <<side, br, tol, st, res>>
Finish == /\ st = "search" /\ Dist(lo, hi) <= tol
          /\ st' = "found" /\ res' = hi
          /\ UNCHANGED <<side, br, tol, lo, hi>>
Next == Start \/ Halve \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBracket(x) == (br[1] <= x /\ x <= br[2]) \/ (br[2] <= x /\ x <= br[1])
Bracketing == st = "search" => side[lo] # side[hi] /\ InBracket(lo) /\ InBracket(hi)
SuccessExactly == /\ st = "found" => side[br[1]] # side[br[2]]
                  /\ st = "failed" => side[br[1]] = side[br[2]]
ResultInside == st = "found" => InBracket(res)
ResultOnHighEndSide == st = "found" => side[res] = side[br[2]]
BoundaryWithinTol == st = "found" => \E x \in Angles : Dist(x, res) <= tol /\ side[x] # side[res]
Terminates == <>(st \in {"found", "failed"})
=============================================================================

---------------------------- MODULE DynamicsTrace ----------------------------
(* Flights and orbits of the real code, judged by the laws: C12.               *)
(*  flight : drift = change of the rotating-frame energy not accounted for by  *)
(*           drag work (1e-9 of the kinetic energy), gain = largest step gain, *)
(*           balance = error of the work balance (1e-6 of the energy lost)     *)
(*  local  : accelerations and rates at one sample against vector mechanics;   *)
(*           residuals in 1e-6 of the scale; psi is compared with the bound    *)
(*           that the regularised heading equation leaves (slack, 1e-6)        *)
(*  lift   : what lift adds to the path, against lift at zero bank             *)
(*  agree  : both integrators                                                  *)
(*  force : drag and lift terms as scalars, arrays and nondimensional, 1e-9    *)
(*  orbit, dv : orbit through a state; transfer costs                          *)
EXTENDS TraceKit
VARIABLES l, viol
tvars == <<l, viol>>
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Cos8(b) == CASE b \in {0} -> 1 [] b \in {1, 7} -> 1 [] b \in {2, 6} -> 0 [] b \in {3, 5} -> -1 [] b = 4 -> -1
Sin8(b) == Cos8((b + 6) % 8)
FlightClauses(e) ==
    { <<"energy-constant-in-vacuum", e.air = 0 => Within(e.drift, 200)>>,
      <<"energy-only-falls", e.air = 1 => Within(e.gain, 200)>>,
      <<"drag-work-accounts-for-the-loss", e.air = 1 => Within(e.balance, 3000)>> }
LocalClauses(e) ==
    { <<"radius-follows-velocity", Within(e.dr, 200)>>, <<"longitude-follows-velocity", Within(e.dth, 200)>>,
      <<"latitude-follows-velocity", Within(e.dph, 200)>>, <<"downrange-follows-velocity", Within(e.ds, 200)>>,
      <<"speed-follows-the-forces", Within(e.dv, 500)>>, <<"path-angle-follows-the-forces", Within(e.dg, 500)>>,
      <<"heading-follows-the-forces", Within(e.dpsi, 500 + e.slack)>> }
LiftClauses(e) ==
    { <<"lift-turns-the-path-by-bank", Sgn(e.up) = Sgn(Cos8(e.bank)) \/ (Cos8(e.bank) = 0 /\ Abs(e.up) <= 2000)>>,
      <<"lift-turns-sideways-by-bank", Sgn(e.side) = Sgn(Sin8(e.bank)) \/ (Sin8(e.bank) = 0 /\ Abs(e.side) <= 2000)>>,
      <<"lift-is-proportional-to-lift-over-drag", Within(e.prop, 10000)>>,
      <<"lift-does-no-work", Within(e.work, 500)>>, <<"drag-is-against-the-velocity", e.drag < 0>> }
AgreeClauses(e) == { <<"integrators-agree", Within(e.diff, e.tol)>>, <<"integrators-agree-on-the-outcome", e.flag = 1>> }
OrbitClauses(e) == { <<"apoapsis-is-that-of-the-inertial-orbit", Within(e.apo, 1000)>>, <<"periapsis-is-that-of-the-inertial-orbit", Within(e.peri, 1000)>>,
                     <<"energy-and-momentum-of-a-state", Within(e.elem, 1000)>> }
DvClauses(e) == { <<"periapsis-raise-cost", Within(e.peri, 1000)>>, <<"apoapsis-raise-cost", Within(e.apo, 1000)>>,
                  <<"raising-costs-lowering-brakes", Sgn(e.speri) = Sgn(e.dperi) /\ Sgn(e.sapo) = Sgn(e.dapo)>> }
ForceClauses(e) == { <<"drag-term-is-along-the-velocity", Within(e.along, 1000)>>, <<"lift-term-in-the-plane", Within(e.up, 1000)>>, <<"lift-term-out-of-the-plane", Within(e.side, 1000)>>,
                     <<"drag-force", Within(e.drag, 1000)>>, <<"lift-force", Within(e.lift, 1000)>> }
Clauses(e) == CASE e.ev = "body" -> BodyClauses(e) [] e.ev = "force" -> ForceClauses(e) [] e.ev = "flight" -> FlightClauses(e) [] e.ev = "local" -> LocalClauses(e) [] e.ev = "lift" -> LiftClauses(e)
                [] e.ev = "agree" -> AgreeClauses(e) [] e.ev = "orbit" -> OrbitClauses(e) [] e.ev = "dv" -> DvClauses(e)
TraceInit == l = 1 /\ viol = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

---------------------------- MODULE ApproachTrace ----------------------------
(* Approach trajectories of the real code: C14.  Residuals in 1e-9.            *)
(*  shape : elements against the arrival velocity and periapsis radius         *)
(*  point : a position and velocity on the trajectory                          *)
(*  plane : orientation: elements, aim plane, frames; signs of the node and    *)
(*          periapsis components with the quadrants of the reported angles     *)
(*  entry : the entry state; peri : the periapsis state of a fly-by            *)
EXTENDS TraceKit
VARIABLES l, viol
tvars == <<l, viol>>
Tol == 2000
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
ShapeClauses(e) == { <<"arrival-velocity-given-left-alone", e.given = 1>>, <<"semi-major-axis-from-arrival-speed", Within(e.a, Tol)>>, <<"eccentricity-from-periapsis", Within(e.e, Tol)>>,
                     <<"momentum-magnitude", Within(e.h, Tol)>>, <<"periapsis-vector-has-the-radius-asked-for", Within(e.rp, Tol)>>,
                     <<"arrives-along-the-given-velocity", Within(e.asym, Tol)>>, <<"arrival-velocity-carried-over", Within(e.vinf, Tol)>>,
                     <<"half-turn-angle", Within(e.beta, Tol)>>,
                     <<"momentum-direction", Within(e.hdir, Tol)>>, <<"eccentricity-vector", Within(e.evec, Tol)>> }
PointClauses(e) == { <<"point-on-the-conic", Within(e.r, Tol)>>, <<"point-in-plane", Within(e.plane, Tol)>>, <<"energy-conserved", Within(e.energy, Tol)>>,
                     <<"momentum-conserved", Within(e.mom, Tol)>>, <<"velocity-is-the-rate-of-position", Within(e.rate, 2000000)>>,
                     <<"inbound-before-periapsis-outbound-after", Sgn(e.radial) = e.side>>, <<"angle-from-periapsis", Within(e.anom, Tol)>>,
                     <<"arrays-as-scalars", Within(e.arr, Tol)>>, <<"aim-frame-position", Within(e.dp, Tol)>> }
PlaneClauses(e) == { <<"inclination", Within(e.i, Tol)>>, <<"node", Within(e.node, Tol)>>, <<"argument-of-periapsis", Within(e.arg, Tol)>>,
                     <<"quadrant-of-the-node", e.nodey = 0 \/ e.nodeq = 0 \/ Sgn(e.nodey) = Sgn(e.nodeq)>>,
                     <<"quadrant-of-the-argument", e.periz = 0 \/ e.argq = 0 \/ Sgn(e.periz) = Sgn(e.argq)>>,
                     <<"aim-axes-orthonormal", Within(e.axes, Tol)>>, <<"aim-point-distance", Within(e.b, Tol)>>, <<"aim-point-direction", Within(e.bdir, Tol)>>,
                     <<"aim-point-angle", Within(e.bang, Tol)>>, <<"frame-change-is-a-rotation", Within(e.rot, Tol)>>, <<"frame-has-the-pole-up", Within(e.pole, Tol)>>,
                     <<"aim-frame-has-the-arrival-up", Within(e.aim, Tol)>> }
EntryClauses(e) == { <<"entry-at-the-entry-altitude", Within(e.r, Tol)>>, <<"entry-is-inbound", e.inb = 1>>, <<"entry-on-the-trajectory", Within(e.on, Tol)>>,
                     <<"entry-latitude", Within(e.lat, Tol)>>, <<"entry-longitude", Within(e.lon, Tol)>>, <<"entry-speed-inertial", Within(e.v, Tol)>>,
                     <<"entry-path-angle-inertial", Within(e.g, Tol)>>, <<"entry-velocity-relative-to-the-atmosphere", Within(e.va, Tol)>>,
                     <<"entry-speed-relative", Within(e.vam, Tol)>>, <<"entry-path-angle-relative", Within(e.ga, Tol)>>,
                     <<"entry-heading-reported", Within(e.head, Tol) \/ Within(e.headk, Tol)>>,
                     <<"entry-heading-is-that-of-the-state", Within(e.head, Tol)>> }
PeriClauses(e) == { <<"fly-by-periapsis-state", Within(e.r, Tol) /\ Within(e.v, Tol) /\ Within(e.dot, Tol)>> }
Clauses(e) == CASE e.ev = "body" -> BodyClauses(e) [] e.ev = "shape" -> ShapeClauses(e) [] e.ev = "point" -> PointClauses(e) [] e.ev = "plane" -> PlaneClauses(e)
                [] e.ev = "entry" -> EntryClauses(e) [] e.ev = "peri" -> PeriClauses(e)
TraceInit == l = 1 /\ viol = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

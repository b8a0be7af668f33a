----------------------------- MODULE OrbitTrace -----------------------------
(* Orbits after capture in the real code: C16.  Residuals in 1e-9, of vectors   *)
(* relative to their size.  Direction of a velocity may be off by Dir: the code *)
(* guards an arc cosine by a factor 1.0000001, half a milliradian at an apsis.  *)
(*  exit   : exit state of the flight        coast : coast orbit and its arc    *)
(*  prm    : periapsis raise                 point : a state on an orbit        *)
(*  arc    : a drawn arc                     burn  : targeting or deflection    *)
(*  entry  : state of the probe at entry     stay  : legs a call may not touch  *)
(*  capture: propulsive capture              timed : timed positions            *)
EXTENDS TraceKit
VARIABLES l, viol
tvars == <<l, viol>>
Tol == 5000
Dir == 500000
ExitClauses(e) == { <<"exit-position", Within(e.pos, Tol)>>, <<"exit-velocity-inertial", Within(e.vel, Tol)>>, <<"exit-velocity-relative", Within(e.rel, Tol)>>,
                    <<"exit-speed-and-path-angle", Within(e.g, Tol)>>, <<"exit-coordinates-reported", Within(e.rep, Tol)>>, <<"apoapsis-and-raise-as-the-flight-reported", Within(e.said, Tol)>> }
CoastClauses(e) == { <<"coast-starts-at-the-exit", Within(e.start, Tol)>>, <<"coast-ends-at-apoapsis", Within(e.end, Tol)>>, <<"coast-follows-the-conic", Within(e.arc, Tol)>>,
                     <<"coast-in-plane", Within(e.plane, Tol)>>, <<"coast-elements", Within(e.elem, Tol)>>, <<"anomaly-of-the-exit", Within(e.th, Tol)>>,
                     <<"coast-runs-forward", e.fwd = 1>>, <<"number-of-points", e.n = 1>> }
RaiseClauses(e) == { <<"apoapsis-kept", Within(e.ra, Tol)>>, <<"requested-periapsis", Within(e.rp, Tol)>>, <<"speed-before-the-raise", Within(e.v1, Tol)>>, <<"speed-after-the-raise", Within(e.v2, Tol)>>,
                     <<"raise-only-changes-the-speed", Within(e.par, Tol)>>, <<"velocity-across-the-radius-at-apoapsis", Within(e.perp, Dir)>>, <<"raise-is-the-difference", Within(e.dv, Tol)>>,
                     <<"orbit-elements", Within(e.elem, Tol)>>, <<"plane-and-line-of-apsides-kept", Within(e.orient, Tol)>> }
PointClauses(e) == { <<"point-on-the-conic", Within(e.r, Tol)>>, <<"point-at-its-anomaly", Within(e.pos, Tol)>>, <<"energy-conserved", Within(e.energy, Tol)>>,
                     <<"momentum-conserved", Within(e.mom, Tol)>>, <<"velocity-along-the-orbit", Within(e.vel, Dir)>>, <<"arrays-as-scalars", Within(e.arr, Tol)>> }
ProbeClauses(e) == { <<"probe-at-its-radius", Within(e.r, Tol)>>, <<"probe-speed-and-direction", Within(e.vel, Dir)>>, <<"probe-energy", Within(e.energy, Tol)>>,
                     <<"probe-position-in-plane", Within(e.plane, Tol)>>, <<"probe-position-turned-from-the-orbit's-periapsis", Within(e.pos, Tol) \/ Within(e.posk, Tol)>>,
                     <<"probe-position-on-the-probe-orbit", Within(e.pos, Tol)>> }
ArcClauses(e) == { <<"arc-starts-where-it-should", Within(e.start, Tol)>>, <<"arc-ends-where-it-should", Within(e.end, Tol)>>, <<"arc-follows-the-conic", Within(e.arc, Tol)>>,
                   <<"number-of-points", e.n = 1>> }
BurnClauses(e) == { <<"burn-along-the-velocity", Within(e.along, Tol)>>, <<"burn-of-the-requested-size", Within(e.size, Tol)>>, <<"orbit-after-the-burn-shape", Within(e.shape, Tol)>>,
                    <<"orbit-after-the-burn-plane", Within(e.plane, Tol)>>, <<"orbit-after-the-burn-periapsis-direction", Within(e.peri, Tol)>>, <<"apsides-reported", Within(e.aps, Tol)>>,
                    <<"quadrants", e.quad = 1>>, <<"passes-through-the-burn-point", e.probe = 1 \/ Within(e.through, Tol)>>,
                    <<"burn-starts-on-the-leg-before", e.probe = 0 \/ Within(e.on, Tol)>>,
                    <<"burn-starts-on-the-probe-leg-as-drawn", e.probe = 1 \/ Within(e.onk, Tol) \/ Within(e.on, Tol)>>,
                    <<"deflection-starts-on-the-probe-orbit", e.probe = 1 \/ Within(e.on, Tol)>> }
EntryClauses(e) == { <<"probe-enters-iff-periapsis-in-the-atmosphere", e.has = e.want>>, <<"probe-entry-altitude", Within(e.r, Tol)>>, <<"probe-entry-inbound", e.inb = 1>>,
                     <<"probe-entry-speed", Within(e.v, Tol)>>, <<"probe-entry-path-angle-inertial", Within(e.g, Tol)>>, <<"probe-entry-coordinates", Within(e.ll, Tol)>>,
                     <<"probe-entry-velocity-relative", Within(e.va, Tol)>>, <<"probe-entry-path-angle-relative-reported", Within(e.ga, Tol) \/ Within(e.gak, Tol)>>,
                     <<"probe-entry-path-angle-relative", Within(e.ga, Tol)>>, <<"probe-entry-heading-reported", Within(e.head, Tol) \/ Within(e.headk, Tol)>>,
                     <<"probe-entry-heading", Within(e.head, Tol)>> }
StayClauses(e) == { <<"legs-before-a-burn-stay", e.same = 1>> }
CaptureClauses(e) == { <<"captured-orbit-has-the-approach-periapsis", Within(e.rp, Tol)>>, <<"captured-orbit-has-the-requested-apoapsis", Within(e.ra, Tol)>>, <<"burn-at-the-approach-periapsis", Within(e.at, Tol)>>,
                       <<"captured-orbit-in-the-approach-plane", Within(e.plane, Tol)>>, <<"speed-after-capture", Within(e.vp, Tol)>>, <<"capture-burn-is-the-difference", Within(e.dv, Tol)>>,
                       <<"capture-burn-along-the-velocity", Within(e.par, Tol)>>, <<"captured-orbit-elements", Within(e.elem, Tol)>> }
TimedClauses(e) == { <<"times-run-over-the-span", Within(e.t, Tol)>>, <<"kepler's-equation", Within(e.kep, Tol)>>, <<"anomalies-agree", Within(e.anom, Tol)>>, <<"timed-position", Within(e.pos, Tol)>>, <<"number-of-points", e.n = 1>> }
Clauses(e) == CASE e.ev = "exit" -> ExitClauses(e) [] e.ev = "coast" -> CoastClauses(e) [] e.ev = "prm" -> RaiseClauses(e) [] e.ev = "point" -> PointClauses(e)
                [] e.ev = "probe" -> ProbeClauses(e) [] e.ev = "arc" -> ArcClauses(e) [] e.ev = "burn" -> BurnClauses(e) [] e.ev = "entry" -> EntryClauses(e)
                [] e.ev = "stay" -> StayClauses(e) [] e.ev = "capture" -> CaptureClauses(e) [] e.ev = "timed" -> TimedClauses(e)
TraceInit == l = 1 /\ viol = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

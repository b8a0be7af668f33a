------------------------------ MODULE ViewTrace ------------------------------
(* Visibility of the real code: C17.  Residuals in 1e-9 relative; elevations in *)
(* millionths of a degree, misses of the line of sight in 1e-8 radii.           *)
(*  time   : the series as a whole                                              *)
(*  look   : one time of a lander: true elevation, reported elevation and angle *)
(*           from the zenith, flag                                              *)
(*  pass   : one time of an orbiter: signed cosine of the angle to the planet's *)
(*           centre, distance of the line of sight from it, flag                *)
(*  stay   : a view computed before is not disturbed by the next one            *)
EXTENDS TraceKit
VARIABLES l, viol
tvars == <<l, viol>>
Tol == 5000
Edge == 20                       \* elevations closer to the horizon than this (2e-5 degrees) are not judged
ElTol == 20
Rad == 100000000                 \* one radius
MissEdge == 200
TimeClauses(e) == { <<"time-starts-at-zero", Within(e.t0, 0)>>, <<"time-covers-the-span", Within(e.t, Tol)>>, <<"one-entry-per-time", e.n = 1>>,
                    <<"lander-turns-with-its-planet", Within(e.lon, Tol)>>, <<"lander-on-the-surface-at-its-latitude", Within(e.pos, Tol)>>,
                    <<"direction-of-the-target", Within(e.dir, Tol)>>, <<"orbiter-where-its-orbit-puts-it", Within(e.orb, Tol)>>, <<"distance-to-the-target", Within(e.range, Tol)>>,
                    <<"flags-are-flags", e.flag = 1>> }
LookClauses(e) == { <<"elevation-above-the-horizon", Abs(e.rep - Max2(e.elev, 0)) <= ElTol>>, <<"never-below-zero", e.rep >= 0>>,
                    <<"angle-from-the-zenith", Abs(e.zen - (90000000 - e.elev)) <= ElTol>>,
                    <<"seen-exactly-above-the-horizon", Abs(e.elev) <= Edge \/ (e.vis = 1 <=> e.elev > 0)>>,
                    <<"seen-exactly-when-elevation-positive", e.vis = (IF e.pos = 1 THEN 1 ELSE 0)>>,
                    <<"distance-to-the-orbiter", Within(e.range, Tol)>> }
Behind(e) == e.toward > 0        \* the planet lies towards the target
Blocked(e) == Behind(e) /\ e.miss < Rad
Clear(e) == Abs(e.miss - Rad) > MissEdge /\ Abs(e.toward) > 10
PassClauses(e) == { <<"loses-sight-exactly-when-blocked", Clear(e) => (e.vis = 0 <=> Blocked(e))>>, <<"distance-of-the-line-of-sight", Within(e.d, Tol)>> }
StayClauses(e) == { <<"earlier-view-undisturbed", e.same = 1>> }
Clauses(e) == CASE e.ev = "body" -> BodyClauses(e) [] e.ev = "time" -> TimeClauses(e) [] e.ev = "look" -> LookClauses(e) [] e.ev = "pass" -> PassClauses(e) [] e.ev = "stay" -> StayClauses(e)
TraceInit == l = 1 /\ viol = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

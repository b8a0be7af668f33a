----------------------------- MODULE QueryTrace -----------------------------
(* Atmosphere queries of the real code, judged by the specification: C11.        *)
(*  table   : a table was loaded (integers; altitudes in quarter km)             *)
(*  thres   : the top of the atmosphere was moved                                *)
(*  query   : density by every entry point at altitudes qs, in 1e-3 of the unit; *)
(*            scalar entry points follow the flight rule, arrays the plain table *)
(*  sonic   : residuals of the speed of sound                                    *)
(*  kind    : queries of a table with spline interpolation, residuals            *)
(*  convert : round trips of altitude, radius and states, residuals              *)
EXTENDS TraceKit, AtmosphereOps
VARIABLES l, viol, tab, thr
tvars == <<l, viol, tab, thr>>
Scale == 1000
Tol == 2
QueryClauses(e) ==
    LET K == 1..Len(e.qs)
        fl(k) == FlightDensity(tab.h, tab.d, e.qs[k], thr, 0)
        in(k) == 0 <= e.qs[k] /\ e.qs[k] <= thr
        plain(o, t) == \A k \in K : Inside(tab.h, e.qs[k]) => Agrees(o[k], Value(tab.h, t, e.qs[k]), Scale, Tol)
        scal(o) == \A k \in K : in(k) => Agrees(o[k], fl(k), Scale, Tol)
    IN { <<"density-by-altitude-is-the-table", scal(e.dens)>>,
         <<"density-by-radius-is-the-table", scal(e.rho)>>,
         <<"density-by-scaled-radius-is-the-table", scal(e.rho2)>>,
         <<"scaled-density-is-the-table", scal(e.rhobar)>>,
         <<"density-array-is-the-table", plain(e.densv, tab.d)>>,
         <<"density-array-by-radius-is-the-table", plain(e.rhov, tab.d)>>,
         <<"temperature-array-is-the-table", plain(e.tempv, tab.t)>>,
         <<"temperature-array-by-radius-is-the-table", plain(e.tempr, tab.t)>>,
         <<"pressure-array-is-the-table", plain(e.presv, tab.p)>>,
         <<"pressure-array-by-radius-is-the-table", plain(e.presr, tab.p)>>,
         <<"no-density-above-the-atmosphere", \A k \in K : e.qs[k] > thr => e.dens[k] = 0 /\ e.rho[k] = 0 /\ e.rho2[k] = 0 /\ e.rhobar[k] = 0>>,
         <<"surface-density-below-the-surface", \A k \in K : e.qs[k] < 0 => e.dens[k] = e.rho0 /\ e.rho[k] = e.rho0 /\ e.rho2[k] = e.rho0 /\ Abs(e.rhobar[k] - e.rho0) <= Tol>>,
         <<"arrays-agree-with-each-other", e.same = 0>> }
SonicClauses(e) == { <<"speed-of-sound-at-table-altitudes", Within(e.node, 100)>>, <<"speed-of-sound-in-between", Within(e.mid, 100)>>,
                     <<"speed-of-sound-by-radius", Within(e.rad, 1000)>> }
KindClauses(e) == { <<"spline-through-the-table", Within(e.node, 1000)>>, <<"spline-in-between", Within(e.mid, 1000)>>,
                    <<"spline-scalar-and-array-agree", Within(e.agree, 1000)>>,
                    <<"spline-top-and-bottom", e.zone = 0>>, <<"profile-plots-show-the-table", e.shown = 0>> }
ConvertClauses(e) == { <<"altitude-radius-round-trip", Within(e.alt, 1000)>>, <<"state-round-trip", Within(e.state, 1000)>>,
                       <<"radius-is-altitude-above-the-reference-sphere", Within(e.r, 1000)>>,
                       <<"angles-pass-unchanged", e.ang = 0>>, <<"reference-units-are-orbital", Within(e.ref, 1000)>>,
                       <<"scaled-state", Within(e.scaled, 1000)>> }
Clauses(e) == CASE e.ev = "air" -> AirClauses(e) [] e.ev = "table" -> {} [] e.ev = "thres" -> {} [] e.ev = "query" -> QueryClauses(e)
                [] e.ev = "sonic" -> SonicClauses(e) [] e.ev = "kind" -> KindClauses(e) [] e.ev = "convert" -> ConvertClauses(e)
TraceInit == l = 1 /\ viol = <<>> /\ tab = [h |-> <<>>] /\ thr = 0
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                /\ viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
                /\ tab' = IF e.ev = "table" THEN e ELSE tab
                /\ thr' = IF e.ev = "thres" THEN e.thr ELSE thr
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

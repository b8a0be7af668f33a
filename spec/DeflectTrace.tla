---------------------------- MODULE DeflectTrace ----------------------------
(* Deflection manoeuvres of the real code: C15.  Residuals in 1e-9, of vectors  *)
(* relative to their size.                                                      *)
(*  first  : the point of the manoeuvre and the velocity before it, against the *)
(*           first vehicle's trajectory; time to its periapsis                  *)
(*  second : the conic through the point with the velocity after it: does it    *)
(*           pass through the second vehicle's periapsis point, with the energy *)
(*           of arrival, when it is said to; own: the velocity taken from the   *)
(*           second vehicle's own trajectory at that distance, which is what    *)
(*           the code does between two probes (listed as a finding)             *)
(*  burn   : the manoeuvre is the difference of the two                         *)
EXTENDS TraceKit
VARIABLES l, viol
tvars == <<l, viol>>
Tol == 20000
FirstClauses(e) == { <<"at-the-distance-given", Within(e.r, Tol)>>, <<"on-the-first-trajectory", Within(e.on, Tol)>>, <<"inbound", e.inb = 1>>,
                     <<"velocity-before-is-the-first-vehicle's-own", Within(e.v, Tol)>>, <<"time-to-the-first-periapsis", Within(e.tof, Tol)>>,
                     <<"legs-are-those-asked-for", Within(e.legs, Tol)>> }
SecondClauses(e) == { <<"arrives-with-the-energy-of-arrival", e.own = 1 \/ Within(e.energy, Tol)>>,
                      <<"conic-after-passes-the-second-periapsis-point", e.own = 1 \/ (Within(e.plane, Tol) /\ Within(e.conic, Tol))>>,
                      <<"time-to-the-second-periapsis", e.own = 1 \/ Within(e.tof, Tol)>>,
                      <<"travels-on-towards-it", e.own = 1 \/ e.ahead = 1>>,
                      <<"between-probes-velocity-from-the-second's-own-trajectory", e.own = 0 \/ (Within(e.ownv, Tol) /\ Within(e.owntof, Tol))>>,
                      <<"between-probes-conic-after-passes-the-second-periapsis-point", e.own = 0 \/ (Within(e.plane, Tol) /\ Within(e.conic, Tol) /\ Within(e.tof, Tol))>> }
BurnClauses(e) == { <<"manoeuvre-is-the-difference", Within(e.vec, Tol)>>, <<"size-is-that-of-the-difference", Within(e.mag, Tol)>> }
Clauses(e) == CASE e.ev = "first" -> FirstClauses(e) [] e.ev = "second" -> SecondClauses(e) [] e.ev = "burn" -> BurnClauses(e)
TraceInit == l = 1 /\ viol = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

---------------------------- MODULE PredictTrace ----------------------------
(* Predictions of the real code.                                               *)
(*  predict : result against an independent flight of a freshly built vehicle  *)
(*            (residuals), tokens of everything reachable from the vehicle     *)
(*            before and after                                                 *)
(*  series  : the same for the series a predicted flight returns               *)
(*            slack / edge : how far rounding alone moves the flight           *)
(*  density : the density model rebuilt from measurements                      *)
EXTENDS TraceKit
VARIABLES l, viol, main, heap, copy, before, answer, measured, steps
pvars == <<main, heap, copy, before, answer, measured, steps>>
tvars == <<l, viol>>
P == INSTANCE Predict WITH MaxSteps <- 0

Clauses(e) ==
    CASE e.ev = "predict" ->
        { <<"vehicle-untouched", e.before = e.after>>,
          <<"planet-and-atmosphere-untouched", e.pbefore = e.pafter>>,
          <<"apoapsis-is-that-of-the-flight", Within(e.apo, 1000 + e.slack)>> }
      [] e.ev = "series" ->
        { <<"vehicle-untouched", e.before = e.after>>,
          <<"planet-and-atmosphere-untouched", e.pbefore = e.pafter>>,
          <<"predicted-flight-is-the-flight", e.edge = 1 \/ Within(e.diff, 1000 + e.slack)>>,
          <<"predicted-outcome-is-that-of-the-flight", e.edge = 1 \/ e.flag = e.wflag>> }
      [] e.ev = "density" ->
        { <<"agrees-with-every-measurement", Within(e.at, 10)>>,
          <<"lowest-measured-altitude", Within(e.low, 10)>>,
          <<"continues-exponentially-below", Within(e.expo, 100)>>,
          <<"scale-height-of-the-atmosphere", Within(e.scale, 300)>>,
          <<"inputs-untouched", e.before = e.after>> }
TraceInit == l = 1 /\ viol = <<>> /\ P!Init
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1 /\ UNCHANGED pvars
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED <<tvars, pvars>>
TraceSpec == TraceInit /\ [][Consume \/ Done]_<<tvars, pvars>>
=============================================================================

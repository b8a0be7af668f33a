----------------------------- MODULE EntryTrace -----------------------------
(* Recorded flights of the real code judged by the design in Entry.tla.     *)
(*  runs  : the computed flight as runs of equal altitude class             *)
(*          <<class, samples before the run>>, total samples in the flight  *)
(*  flag, n : reported outcome and number of reported samples               *)
(*  lens  : lengths of all reported series                                  *)
(*  start, grid, prefix, units : residuals (1e-9 relative)                  *)
(*  down, drop : angle (mdeg) and speed (m/s) where an early end occurred,   *)
(*  deep : steepest reported angle (second integrator)                      *)
EXTENDS TraceKit
VARIABLES l, viol, flown, outcome, report
tvars == <<l, viol, flown, outcome, report>>
E == INSTANCE Entry WITH MaxLen <- 100000000

Classes(e) == [ i \in 1..Len(e.runs) |-> e.runs[i][1] ]
\* samples reported by the design
Expected(e) == LET s == Classes(e) c == E!Cut(s) IN
               IF c = Len(s) THEN e.total ELSE e.runs[c + 1][2]
\* fast flights with lift pitch over within the last step
DownTo(speed) == IF speed < 6000 THEN -87600 ELSE -87000
Clauses(e) ==
    { <<"outcome", e.flag = E!Outcome(Classes(e))>>,
      <<"cut-at-end-event", e.n = Expected(e)>>,
      <<"series-aligned", \A i \in 1..Len(e.lens) : e.lens[i] = e.n>>,
      <<"starts-at-initial-state", e.n = 0 \/ Within(e.start, 100)>>,
      <<"time-grid", e.n = 0 \/ Within(e.grid, 100)>>,
      <<"flies-requested-duration", e.dur = 1>>,
      \* the second integrator ends a flight early only when its path points within two degrees of straight down
      <<"ends-early-only-pointing-down", e.deep >= -88050 /\ (e.drop >= 50 => e.down \in -88050..DownTo(e.drop))>>,
      <<"report-is-prefix-of-flight", Within(e.prefix, 100)>>,
      <<"plot-units", Within(e.units, 100)>>,
      <<"plots-show-the-report", e.shown = 0>> }

TraceInit == l = 1 /\ viol = <<>> /\ flown = <<>> /\ outcome = 0 /\ report = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                IF IsFault(e)
                THEN viol' = Record(viol, l, {FaultClause(e)}) /\ UNCHANGED <<flown, outcome, report>>
                ELSE IF e.ev = "air"
                THEN viol' = Record(viol, l, Failing(WindowClauses(e))) /\ UNCHANGED <<flown, outcome, report>>
                ELSE /\ flown' = Classes(e) /\ outcome' = e.flag
                     /\ report' = SubSeq(Classes(e), 1, E!Cut(Classes(e)))
                     /\ viol' = Record(viol, l, Failing(Clauses(e)))
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
=============================================================================

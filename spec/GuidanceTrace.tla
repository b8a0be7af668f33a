---------------------------- MODULE GuidanceTrace ----------------------------
(* Guided flights of the real code, judged by Guidance.tla: C05.               *)
(*  flight : one per flight; series lengths, monotone time, cycle counts        *)
(*  cycle  : one per guidance cycle, in order; residuals against an independent *)
(*           flight of the same cycle from the state the previous one ended in  *)
(*           and stop: whether the flight must / may (within a margin of the    *)
(*           edge of the atmosphere) / must not end with this cycle             *)
(*  end    : final orbit and costs                                              *)
EXTENDS TraceKit
VARIABLES l, viol, cur
tvars == <<l, viol, cur>>
VARIABLES phase, cyc, bank, skirt, facts, log, start, end
gvars == <<phase, cyc, bank, skirt, facts, log, start, end>>
G == INSTANCE Guidance WITH MaxCycles <- 0, Commands <- {0}, MaxRoll <- 1, Banks <- {0}

FlightClauses(e) ==
    { <<"series-aligned", \A i \in 1..Len(e.lens) : e.lens[i] = e.lens[1]>>,
      <<"entry-series-aligned", \A i \in 1..Len(e.elens) : e.elens[i] = e.elens[1]>>,
      <<"entry-phase-is-kept-in-the-full-flight", Within(e.prefix, 1)>>,
      <<"time-runs-forward", e.back = 0>>,
      <<"each-recorded-cycle-flown-once", e.cycles = e.recorded>>,
      <<"records-aligned", \A i \in 1..Len(e.rec) : e.rec[i] = e.recorded>>,
      <<"recorded-altitude-rates", Within(e.rates, 1000)>>,
      <<"starts-at-the-entry-state", Within(e.first, 100)>>,
      <<"switch-point-recorded", Within(e.switch, 10)>> }
\* cur: what the design remembers of the flight so far
CycleClauses(e) ==
    { <<"starts-where-the-last-one-ended", Within(e.start, 10)>>,
      <<"cycle-start-recorded", Within(e.tstart, 100)>>,
      <<"flies-the-recorded-bank-angle", Within(e.fly, 200)>>,
      <<"flies-one-cycle", e.n = e.wn>>,
      <<"entry-before-exit", cur.phase = "exit" => e.phase = "exit">>,
      <<"nothing-flown-after-the-end", ~(cur.over /\ cur.phase = e.phase)>>,
      <<"nothing-flown-after-the-exit-phase-ended", ~(cur.over /\ cur.phase = "exit")>> }
EndClauses(e) ==
    { <<"ends-out-of-the-atmosphere-or-trapped", cur.mayend>>,
      <<"final-apoapsis", Within(e.apo, 1000)>>, <<"final-periapsis", Within(e.peri, 1000)>>,
      <<"apoapsis-error", Within(e.perc, 1000)>>,
      <<"periapsis-raise-cost", Within(e.pdv, 1000)>>, <<"apoapsis-raise-cost", Within(e.adv, 1000)>>,
      <<"total-heat-load", Within(e.heat, 1000)>> }
Clauses(e) == CASE e.ev = "flight" -> FlightClauses(e) [] e.ev = "cycle" -> CycleClauses(e) [] e.ev = "end" -> EndClauses(e)
Fresh == [phase |-> "entry", over |-> FALSE, mayend |-> FALSE]
TraceInit == /\ l = 1 /\ viol = <<>> /\ cur = Fresh
             /\ phase = "" /\ cyc = 0 /\ bank = 0 /\ skirt = TRUE /\ facts = 0 /\ log = <<>> /\ start = 0 /\ end = 0
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                /\ viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
                /\ cur' = IF e.ev = "cycle" THEN [phase |-> e.phase, over |-> G!Over(e.stop = "must", e.left = 1), mayend |-> e.phase = "exit" /\ e.stop # "no"] ELSE IF e.first = 1 THEN Fresh ELSE cur
           /\ l' = l + 1 /\ UNCHANGED gvars
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED <<tvars, gvars>>
TraceSpec == TraceInit /\ [][Consume \/ Done]_<<tvars, gvars>>
==============================================================================

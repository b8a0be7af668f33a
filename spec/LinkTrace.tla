------------------------------ MODULE LinkTrace ------------------------------
(* Links of the real code: C18.  Decibels in millionths; times in quarters of a *)
(* time step; volumes in halves of what flows in one time step at full rate,    *)
(* times 1000000.                                                               *)
(*  ledger : the entries of the budget, from what was asked for, and the result *)
(*  plan   : windows and, for each time, the schedule's flag                    *)
(*  flow   : sight and schedule flags, and the delivered volumes                *)
(*  stay   : nothing else changes when a volume is computed                     *)
EXTENDS TraceKit
VARIABLES l, viol
tvars == <<l, viol>>
DbTol == 30
VolTol == 20
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Avail(e) == Sum(e.gains) - Sum(e.losses)
LedgerClauses(e) == { <<"available-is-the-balance", Abs(e.avail - Avail(e)) <= DbTol>>, <<"margin-is-available-minus-required", Abs(e.margin - (e.avail - e.req)) <= 2>>,
                      <<"transmit-gain", Abs(e.gt - e.gains[2]) <= DbTol>>, <<"receive-gain", Abs(e.gr - e.gains[3]) <= DbTol>>,
                      <<"free-space-loss", Abs(e.ls - e.losses[1]) <= DbTol>>, <<"entries-reported", Within(e.entries, 1000)>>, <<"printed-budget-is-the-budget", e.printed = 1>> }
On(ws, t) == \E k \in 1..Len(ws) : ws[k][1] <= t /\ t <= ws[k][2]
PlanClauses(e) == { <<"one-flag-per-time", Len(e.on) = e.n>>, <<"times-run-over-the-span", Within(e.t, 1000)>>,
                    <<"on-exactly-inside-a-window", \A k \in 1..Len(e.on) : e.on[k] = 2 \/ (e.on[k] = 1 <=> On(e.windows, e.unit * (k - 1)))>> }
Ok(e, k) == e.sight[k] = 1 /\ e.on[k] = 1
FlowClauses(e) == LET n == Len(e.vol) IN
    { <<"one-volume-per-time", n = Len(e.sight)>>, <<"volume-starts-at-zero", n = 0 \/ e.vol[1] = 0>>,
      <<"volume-never-falls", \A k \in 2..n : e.vol[k] >= e.vol[k - 1] - 1>>,
      <<"grows-only-in-sight-and-scheduled", \A k \in 2..n : (~Ok(e, k) /\ ~Ok(e, k - 1)) => Abs(e.vol[k] - e.vol[k - 1]) <= 1>>,
      <<"full-rate-in-sight-and-scheduled", \A k \in 2..n : (Ok(e, k) /\ Ok(e, k - 1)) => Abs(e.vol[k] - e.vol[k - 1] - 2000000) <= VolTol>>,
      <<"never-above-full-rate", \A k \in 2..n : e.vol[k] - e.vol[k - 1] <= 2000000 + VolTol>>,
      <<"half-a-step-at-each-end-in-sight-and-scheduled", \A k \in 2..n : Abs(e.vol[k] - e.vol[k - 1] - (IF Ok(e, k) THEN 1000000 ELSE 0) - (IF Ok(e, k - 1) THEN 1000000 ELSE 0)) <= VolTol>> }
StayClauses(e) == { <<"nothing-else-changes", e.same = 1>> }
Clauses(e) == CASE e.ev = "ledger" -> LedgerClauses(e) [] e.ev = "plan" -> PlanClauses(e) [] e.ev = "flow" -> FlowClauses(e) [] e.ev = "stay" -> StayClauses(e)
TraceInit == l = 1 /\ viol = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

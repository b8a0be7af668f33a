------------------------------- MODULE BankTrace -------------------------------
(* Bank angles and phase switch of real lift modulation flights: C06.            *)
(* Angles in 1e-6 deg.                                                           *)
(*  cycle : prev/bank as recorded, most = roll rate times cycle length,          *)
(*          lim = which side of its limits the glide law is, law = its angle     *)
(*  facts after the cycle: pred (see Guidance.tla; "skip" if not evaluated       *)
(*          here, "edge" if too close to call), slow, top, left                  *)
(*  roll  : one call of the roll controller                                      *)
EXTENDS TraceKit
VARIABLES l, viol, open
tvars == <<l, viol, open>>
VARIABLES phase, cyc, bank, skirt, facts, log, start, end
gvars == <<phase, cyc, bank, skirt, facts, log, start, end>>
G == INSTANCE Guidance WITH MaxCycles <- 0, Commands <- {0}, MaxRoll <- 1, Banks <- {0}

Command(e) == IF e.phase = "exit" THEN 0
              ELSE CASE G!Limit(e.cosv, e.one) = "up" -> 0
                     [] G!Limit(e.cosv, e.one) = "down" -> 180000000
                     [] OTHER -> e.law
Tol == 20
Cmd(e) == Command(e)
Known(e) == ~e.edge
Leaves(e) == G!Leave(e.pred, e.slow = 1, e.top = 1, e.left = 1)
CycleClauses(e) ==
    { <<"never-outruns-the-roll-rate", Abs(e.bank - e.prev) <= e.most + Tol>>,
      <<"towards-the-command-and-never-past-it",
            Min2(e.prev, Cmd(e)) - Tol <= e.bank /\ e.bank <= Max2(e.prev, Cmd(e)) + Tol>>,
      <<"follows-the-guidance-law", Abs(e.bank - G!Roll(e.prev, Cmd(e), e.most)) <= Tol>>,
      <<"between-lift-up-and-lift-down", e.phase = "entry" => -Tol <= e.bank /\ e.bank <= 180000000 + Tol>>,
      <<"stays-in-entry-until-a-switch-criterion-holds",
            e.phase = "entry" /\ e.lastentry = 1 /\ ~e.edge /\ e.pred # "skip" => Leaves(e)>>,
      <<"leaves-entry-at-the-first-cycle-where-one-holds",
            e.phase = "entry" /\ e.lastentry = 0 /\ ~e.edge =>
                ~G!Leave(IF e.pred = "skip" THEN "none" ELSE e.pred, e.slow = 1, e.top = 1, e.left = 1)>>,
      <<"measured-density", Within(e.dens, 1000)>> }
RollClauses(e) ==
    { <<"controller-never-outruns-the-roll-rate", Abs(e.bank - e.prev) <= e.most + Tol>>,
      <<"controller-follows-the-design", Abs(e.bank - G!Roll(e.prev, e.cmd, e.most)) <= Tol>>,
      <<"controller-replays-the-generated-case", e.exact = 1 => Abs(2 * e.bank - 1000000 * e.next2) <= Tol>>,
      <<"controller-remembers-what-it-flew", Abs(e.mem - e.bank) <= Tol>> }
NoEntryClauses(e) == { <<"enters-exit-phase-at-once-when-slow", e.slow = 1>> }
Clauses(e) == CASE e.ev = "cycle" -> CycleClauses(e) [] e.ev = "roll" -> RollClauses(e) [] e.ev = "noentry" -> NoEntryClauses(e)
TraceInit == /\ l = 1 /\ viol = <<>> /\ open = 0
             /\ phase = "" /\ cyc = 0 /\ bank = 0 /\ skirt = TRUE /\ facts = 0 /\ log = <<>> /\ start = 0 /\ end = 0
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1 /\ open' = open /\ UNCHANGED gvars
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED <<tvars, gvars>>
TraceSpec == TraceInit /\ [][Consume \/ Done]_<<tvars, gvars>>
================================================================================

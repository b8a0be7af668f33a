----------------------------- MODULE JettisonTrace -----------------------------
(* Drag modulation flights of the real code: C07.                                *)
(*  cycle : skirt / bare = residual of the cycle against an independent flight   *)
(*          with the skirt on / after jettison; facts as in BankTrace            *)
(*  again : a second flight of the same vehicle against the first                *)
EXTENDS TraceKit
VARIABLES l, viol, attached
tvars == <<l, viol, attached>>
VARIABLES phase, cyc, bank, skirt, facts, log, start, end
gvars == <<phase, cyc, bank, skirt, facts, log, start, end>>
G == INSTANCE Guidance WITH MaxCycles <- 0, Commands <- {0}, MaxRoll <- 1, Banks <- {0}
Tol == 200
Leaves(e, p) == G!Leave(p, e.slow = 1, e.top = 1, e.left = 1)
CycleClauses(e, att) ==
    { <<"entry-flown-with-the-skirt", e.phase = "entry" => Within(e.skirt, Tol)>>,
      <<"exit-flown-without-the-skirt", e.phase = "exit" => Within(e.bare, Tol)>>,
      <<"jettisoned-once", ~att => e.phase = "exit">>,
      <<"no-banking", e.phase = "entry" => e.bank = 0>>,
      <<"no-jettison-before-a-criterion-holds",
            e.phase = "entry" /\ e.lastentry = 1 /\ ~e.edge /\ e.pred # "skip" => Leaves(e, e.pred)>>,
      <<"jettison-at-the-first-cycle-where-one-holds",
            e.phase = "entry" /\ e.lastentry = 0 /\ ~e.edge => ~Leaves(e, IF e.pred = "skip" THEN "none" ELSE e.pred)>>,
      <<"measured-density", Within(e.dens, 1000)>> }
AgainClauses(e) == { <<"second-flight-starts-with-the-skirt", Within(e.diff, Tol)>>, <<"second-flight-has-as-many-cycles", e.n = e.wn>> }
NoEntryClauses(e) == { <<"jettison-at-once-when-slow", e.slow = 1>> }
Clauses(e, att) == CASE e.ev = "cycle" -> CycleClauses(e, att) [] e.ev = "again" -> AgainClauses(e) [] e.ev = "noentry" -> NoEntryClauses(e)
TraceInit == /\ l = 1 /\ viol = <<>> /\ attached = TRUE
             /\ phase = "" /\ cyc = 0 /\ bank = 0 /\ skirt = TRUE /\ facts = 0 /\ log = <<>> /\ start = 0 /\ end = 0
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l]
                  att == IF e.first = 1 THEN TRUE ELSE attached IN
                /\ viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e, att)))
                /\ attached' = IF e.ev = "cycle" THEN att /\ e.phase = "entry" ELSE att
           /\ l' = l + 1 /\ UNCHANGED gvars
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED <<tvars, gvars>>
TraceSpec == TraceInit /\ [][Consume \/ Done]_<<tvars, gvars>>
================================================================================

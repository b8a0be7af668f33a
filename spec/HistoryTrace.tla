---------------------------- MODULE HistoryTrace ----------------------------
(* Recorded histories of calls on real vehicles.                               *)
(*  fresh : a call on a fresh vehicle in configuration cfg, result token r     *)
(*  cfg   : the user changes the configuration (field tokens)                  *)
(*  call  : a call in a history; before/after: tokens of every field;          *)
(*          args: whether the arrays it was given are as they were             *)
(* memo is the design's: results of calls by call and configuration.           *)
EXTENDS TraceKit
VARIABLES l, viol, memo, want
tvars == <<l, viol, memo, want>>
H == INSTANCE History WITH Vals <- {0}, MaxCalls <- 0, cfg <- 0, stack <- <<>>, calls <- 0

Same(e) == { m \in memo : m[1] = e.op /\ m[2] = e.cfg }
Clauses(e) ==
    IF e.ev = "call"
    THEN { <<"leaves-configuration-alone", e.before = e.after>>,
           <<"leaves-its-arguments-alone", e.args = 1>>,
           <<"starts-from-what-was-configured", want = <<>> \/ e.before = want>>,
           <<"function-of-the-configuration", \A m \in Same(e) : m[3] = e.r>> }
    ELSE {}
TraceInit == l = 1 /\ viol = <<>> /\ memo = {} /\ want = <<>>
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                IF IsFault(e)
                THEN viol' = Record(viol, l, {FaultClause(e)}) /\ memo' = (IF e.first = 1 THEN {} ELSE memo) /\ want' = <<>>
                ELSE /\ viol' = Record(viol, l, Failing(Clauses(e)))
                     /\ memo' = (IF e.first = 1 THEN {} ELSE memo) \cup
                                (IF e.ev \in {"fresh", "call"} THEN {<<e.op, e.cfg, e.r>>} ELSE {})
                     /\ want' = IF e.ev = "cfg" THEN e.fields ELSE IF e.first = 1 THEN <<>> ELSE want
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
=============================================================================

------------------------------ MODULE Guidance ------------------------------
(* A guided aerocapture flight: guidance cycles in an entry phase, then in an  *)
(* exit phase.  The environment decides how fast and high the vehicle is after *)
(* each cycle and what the on-board prediction says; guidance decides the bank *)
(* command, when to switch phase (for drag modulation: when to jettison) and   *)
(* when the flight is over.                                                    *)
EXTENDS Integers, Sequences

CONSTANTS MaxCycles, Commands, MaxRoll, Banks

Max2g(a, b) == IF a > b THEN a ELSE b
Absg(x) == IF x < 0 THEN -x ELSE x
\* the bank angle of the next cycle
Roll(prev, cmd, most) ==
    IF Absg(cmd - prev) <= most THEN cmd
    ELSE IF cmd > prev THEN prev + most ELSE prev - most
\* the equilibrium-glide command is limited to between full lift up and down
Limit(cosine, one) == IF cosine > one THEN "up" ELSE IF cosine < -one THEN "down" ELSE "law"

\* facts after a cycle
\*  pred : "none" (altitude rate still below its threshold), "high", "low" (positive and
\*         below target), "near" (within tolerance of the target), "escape" (no apoapsis)
\*  slow : speed at or below the switch speed
\*  top  : reached the exit altitude
\*  left : the flight left its window (skipped out or trapped)
Leave(pred, slow, top, left) == pred \in {"low", "near"} \/ slow \/ top \/ left
Over(top, left) == top \/ left

VARIABLES phase, cyc, bank, skirt, facts, log, start, end
vars == <<phase, cyc, bank, skirt, facts, log, start, end>>
Facts == [pred : {"none", "high", "low", "near", "escape"}, slow : BOOLEAN, top : BOOLEAN, left : BOOLEAN]

Init == /\ phase = "entry" /\ cyc = 0 /\ bank = 0 /\ skirt = TRUE
        /\ facts \in [pred : {"none"}, slow : BOOLEAN, top : {FALSE}, left : {FALSE}]
        /\ log = <<>> /\ start = 0 /\ end = 1
Fly(cmd) == /\ cyc < MaxCycles /\ cyc' = cyc + 1
            /\ bank' = Roll(bank, cmd, MaxRoll)
            /\ start' = end /\ end' = end + 1
            /\ facts' \in Facts
            /\ log' = Append(log, [phase |-> phase, prev |-> bank, cmd |-> cmd, bank |-> bank', skirt |-> skirt, facts |-> facts', start |-> end, end |-> end + 1])
EntryCycle == /\ phase = "entry"
              /\ IF cyc = 0 THEN ~facts.slow ELSE ~Leave(facts.pred, facts.slow, facts.top, facts.left)
              /\ \E c \in Commands : Fly(c)
              /\ UNCHANGED <<phase, skirt>>
Switch == /\ phase = "entry"
          /\ IF cyc = 0 THEN facts.slow ELSE Leave(facts.pred, facts.slow, facts.top, facts.left)
          /\ phase' = "exit" /\ skirt' = FALSE
          /\ UNCHANGED <<cyc, bank, facts, log, start, end>>
InExit == \E i \in 1..Len(log) : log[i].phase = "exit"
ExitCycle == /\ phase = "exit" /\ (~InExit \/ ~Over(facts.top, facts.left))
             /\ Fly(0) /\ UNCHANGED <<phase, skirt>>
Finish == /\ phase = "exit" /\ InExit /\ Over(facts.top, facts.left)
          /\ phase' = "done" /\ UNCHANGED <<cyc, bank, skirt, facts, log, start, end>>
Next == EntryCycle \/ Switch \/ ExitCycle \/ Finish
Spec == Init /\ [][Next]_vars

NoGapNoOverlap == \A i \in 2..Len(log) : log[i].start = log[i-1].end
EntryThenExit == \A i, j \in 1..Len(log) : i < j /\ log[i].phase = "exit" => log[j].phase = "exit"
RollLimited == \A i \in 1..Len(log) : LET g == log[i] IN
                 /\ Absg(g.bank - g.prev) <= MaxRoll
                 /\ (g.prev <= g.bank /\ g.bank <= g.cmd) \/ (g.cmd <= g.bank /\ g.bank <= g.prev)
                 /\ Absg(g.cmd - g.prev) <= MaxRoll => g.bank = g.cmd
BankBounded == bank \in Banks
ExitCommandsLiftUp == \A i \in 1..Len(log) : log[i].phase = "exit" => log[i].cmd = 0
JettisonOnce == \A i \in 1..Len(log) : log[i].skirt = (log[i].phase = "entry")
SwitchAtFirst == \A i \in 1..Len(log) : log[i].phase = "entry" /\ i < Len(log) =>
                   LET f == log[i].facts IN (log[i+1].phase = "exit") = Leave(f.pred, f.slow, f.top, f.left)
NothingAfterTheEnd == \A i \in 1..Len(log) : log[i].phase = "exit" /\ i < Len(log) =>
                   ~Over(log[i].facts.top, log[i].facts.left)
=============================================================================

-------------------------------- MODULE Entry --------------------------------
(* An open-loop atmospheric flight: samples are flown, then the flight is   *)
(* classified (skipped out / trapped / timed out) and cut at its end event. *)
(* Altitudes are abstracted to their position relative to the surface, the  *)
(* trap-in altitude and the skip-out altitude.                              *)
EXTENDS Integers, Sequences

CONSTANT MaxLen

Below == 0      \* below the surface
Ground == 1     \* exactly at the surface
Low == 2        \* between surface and trap-in altitude
AtTrap == 3     \* exactly at the trap-in altitude
Mid == 4        \* inside the flight window
AtSkip == 5     \* exactly at the skip-out altitude
High == 6       \* above the skip-out altitude
Class == 0..6

Skipped == 1
TimedOut == 0
Trapped == -1
Flying == 99     \* not yet classified

\* index of the first sample in S, or Len + 1
First(s, S) == LET I == { i \in 1..Len(s) : s[i] \in S } IN
               IF I = {} THEN Len(s) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Occurs(s, S) == \E i \in 1..Len(s) : s[i] \in S

Outcome(s) == IF Occurs(s, {High}) /\ ~Occurs(s, {Below}) THEN Skipped
              ELSE IF Occurs(s, {Below, Ground, Low}) THEN Trapped
              ELSE TimedOut
\* number of reported samples
Cut(s) == CASE Outcome(s) = Skipped  -> First(s, {High}) - 1
            [] Outcome(s) = Trapped  -> First(s, {Below, Ground, Low}) - 1
            [] Outcome(s) = TimedOut -> Len(s)

VARIABLES flown,     \* samples computed so far
          outcome,   \* Flying, or the classification
          report     \* the reported samples
vars == <<flown, outcome, report>>

Init == /\ \E c \in Class \ {High} : flown = <<c>>
        /\ outcome = Flying /\ report = <<>>
Sample(c) == /\ outcome = Flying /\ Len(flown) < MaxLen
             /\ flown' = Append(flown, c) /\ UNCHANGED <<outcome, report>>
Finish == /\ outcome = Flying
          /\ outcome' = Outcome(flown)
          /\ report' = SubSeq(flown, 1, Cut(flown))
          /\ UNCHANGED flown
Next == (\E c \in Class : Sample(c)) \/ Finish
Spec == Init /\ [][Next]_vars

Finished == outcome # Flying
\* exactly one classification, and it is stable under what follows the flight
Total == Finished => outcome \in {Skipped, TimedOut, Trapped}
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
ReportIsPrefix == Finished => IsPrefixOf(report, flown)
\* no reported sample is past the end event
NothingPastEnd == Finished =>
    \A i \in 1..Len(report) :
        /\ outcome = Skipped  => report[i] # High /\ report[i] # Below
        /\ outcome = Trapped => report[i] \notin {Below, Ground, Low}
        /\ outcome = TimedOut  => report[i] \in {AtTrap, Mid, AtSkip}
\* the sample after the report, if any, is the end event
EndEventNext == Finished /\ Len(report) < Len(flown) =>
    LET n == flown[Len(report) + 1] IN
        /\ outcome = Skipped  => n = High
        /\ outcome = Trapped => n \in {Below, Ground, Low}
        /\ outcome # TimedOut
TimedOutIsWhole == Finished /\ outcome = TimedOut => report = flown
\* a flight that starts in the window is never reported as nothing
NeverEmpty == Finished /\ flown[1] \in {AtTrap, Mid, AtSkip} => report # <<>>
==============================================================================

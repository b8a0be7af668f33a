------------------------------ MODULE Predict ------------------------------
(* On-board prediction.  Objects live in a heap: vehicles refer to a planet,  *)
(* a planet to its density model.  A prediction copies the vehicle and its    *)
(* planet, installs the measured density and (for a jettison prediction) the  *)
(* post-jettison drag in the copy, flies the copy, and drops it.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxSteps
VARIABLES main,      \* [planet, drag, state, log] of the vehicle that flies
          heap,      \* planet objects: id -> density model
          copy,      \* <<>> or <<[planet, drag, state]>>
          before,    \* what the vehicle and its planet were when the prediction began
          answer,    \* results of predictions: <<drag, density, state, result>>
          measured,  \* measured density model, 0 if none yet
          steps
vars == <<main, heap, copy, before, answer, measured, steps>>
Models == 0..3
Drags == {"skirt", "bare"}
\* the flight is some function of what flies and from where
Fly(drag, density, state) == <<drag, density, state>>

Init == /\ main = [planet |-> 1, drag |-> "skirt", state |-> 0, log |-> <<>>]
        /\ heap = (1 :> 0) /\ copy = <<>> /\ before = <<>> /\ answer = {} /\ measured = 0 /\ steps = 0
Step == copy = <<>> /\ steps < MaxSteps /\ steps' = steps + 1
FlyOn == /\ Step /\ main' = [main EXCEPT !.state = @ + 1, !.log = Append(@, Fly(main.drag, heap[main.planet], main.state))]
         /\ UNCHANGED <<heap, copy, before, answer, measured>>
Measure == /\ Step /\ \E m \in Models \ {0} : measured' = m
           /\ UNCHANGED <<main, heap, copy, before, answer>>
Begin(jettison) ==
         /\ copy = <<>> /\ measured # 0 /\ steps < MaxSteps
         /\ before' = <<main, heap[main.planet], jettison>>
         /\ heap' = [ i \in (DOMAIN heap \cup {2}) |-> IF i = 2 THEN measured ELSE heap[i] ]
         /\ copy' = <<[planet |-> 2, drag |-> IF jettison THEN "bare" ELSE main.drag, state |-> main.state]>>
         /\ UNCHANGED <<main, answer, measured, steps>>
End == /\ copy # <<>> /\ steps' = steps + 1
       /\ answer' = answer \cup {<<before, measured, Fly(copy[1].drag, heap[copy[1].planet], copy[1].state)>>}
       /\ copy' = <<>> /\ UNCHANGED <<main, heap, before, measured>>
Next == FlyOn \/ Measure \/ (\E j \in BOOLEAN : Begin(j)) \/ End
Spec == Init /\ [][Next]_vars

Untouched == before # <<>> /\ copy # <<>> => main = before[1] /\ heap[main.planet] = before[2]
TruthIsKept == heap[main.planet] = 0                    \* the real atmosphere is never replaced
Faithful == \A a \in answer : a[3] = Fly(IF a[1][3] THEN "bare" ELSE a[1][1].drag, a[2], a[1][1].state)
============================================================================

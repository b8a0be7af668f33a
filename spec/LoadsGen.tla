------------------------------ MODULE LoadsGen ------------------------------
(* all histories of flights, continuations, restarts and nose radius sweeps    *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT Len1
Ops == {"config0", "configH", "chain", "fly", "sweep"}
\* histories that fly at least once, where a continuation or sweep follows a flight
Ok(h) == /\ h[Len(h)] \in {"fly", "sweep"}
         /\ \A k \in 1..Len(h) : h[k] \in {"chain", "sweep"} => \E j \in 1..(k-1) : h[j] = "fly"
         /\ \A k \in 1..(Len(h)-1) : h[k] \in {"config0", "configH", "chain"} => h[k+1] = "fly"
Hist == { h \in UNION { [1..n -> Ops] : n \in 1..Len1 } : Ok(h) }
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Hist))
GSpec == GInit /\ [][UNCHANGED x]_x
=============================================================================

------------------------------ MODULE EntryGen ------------------------------
(* all altitude histories up to MaxLen with the outcome the design gives them *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxLen
VARIABLES flown, outcome, report
E == INSTANCE Entry
Histories == UNION { [1..n -> 0..6] : n \in 1..MaxLen }
Cases == { [s |-> h, flag |-> E!Outcome(h), cut |-> E!Cut(h)] : h \in Histories }
Out == JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Cases))
GInit == flown = <<>> /\ outcome = 99 /\ report = <<>> /\ Out
GNext == UNCHANGED <<flown, outcome, report>>
GSpec == GInit /\ [][GNext]_<<flown, outcome, report>>
=============================================================================

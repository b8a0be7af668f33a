----------------------------- MODULE HistoryGen -----------------------------
(* histories: a call, possibly a change of configuration, another call, back   *)
(* to the first configuration, and the first call again; and tours: one call in *)
(* every configuration in turn and in the first one again                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS NOps, NCfgs
VARIABLE x
Hist(a, b, c, d) == IF c = d THEN <<[k |-> "call", v |-> a], [k |-> "call", v |-> b], [k |-> "call", v |-> a]>>
                    ELSE <<[k |-> "call", v |-> a], [k |-> "cfg", v |-> d], [k |-> "call", v |-> b],
                           [k |-> "cfg", v |-> c], [k |-> "call", v |-> b]>>
Tour(a) == [ i \in 1..(2 * NCfgs + 1) |-> IF i % 2 = 1 THEN [k |-> "call", v |-> a] ELSE [k |-> "cfg", v |-> (i \div 2) % NCfgs] ]
Tours == { [cfg |-> 0, a |-> a, b |-> a, d |-> 1, h |-> Tour(a), tour |-> 1] : a \in 0..(NOps-1) }
Pairs == { [cfg |-> c, a |-> a, b |-> b, d |-> d, h |-> Hist(a, b, c, d), tour |-> 0] : a \in 0..(NOps-1), b \in 0..(NOps-1), c \in {0}, d \in 0..(NCfgs-1) }
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Pairs) \o SetToSeq(Tours))
GSpec == GInit /\ [][UNCHANGED x]_x
=============================================================================

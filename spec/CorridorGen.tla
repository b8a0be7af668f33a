----------------------------- MODULE CorridorGen -----------------------------
(* every side function on the grid, with every bracket and tolerance, and     *)
(* what the design allows as the outcome                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Tols, Brackets
VARIABLES side, br, tol, lo, hi, st, res
C == INSTANCE Corridor
GenBrackets == {<<0,8>>, <<8,0>>, <<2,6>>, <<1,4>>, <<7,3>>, <<5,5>>}
Sides == [C!Angles -> {C!High, C!Low}]
Cases == { [side |-> [i \in 1..(N+1) |-> s[i-1]], lo |-> b[1], hi |-> b[2], tol |-> t] : s \in Sides, b \in Brackets, t \in Tols }
GInit == /\ side = [a \in C!Angles |-> 1] /\ br = <<0, 0>> /\ tol = 0 /\ lo = 0 /\ hi = 0 /\ st = "gen" /\ res = -1
         /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Cases))
GNext == UNCHANGED <<side, br, tol, lo, hi, st, res>>
GSpec == GInit /\ [][GNext]_<<side, br, tol, lo, hi, st, res>>
==============================================================================

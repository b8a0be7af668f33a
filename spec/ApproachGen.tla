----------------------------- MODULE ApproachGen -----------------------------
(* the lattice of arrivals: planet, direction of arrival (26 directions), angle *)
(* about it (16ths of a turn), speed and periapsis classes, entry or fly-by     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Dirs == { <<x, y, z>> : x \in -1..1, y \in -1..1, z \in -1..1 } \ { <<0, 0, 0>> }
Cases == [planet : 0..7, dir : Dirs, psi : 0..7, speed : 0..2, deep : 0..1, entry : 0..1]
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Cases))
GSpec == GInit /\ [][UNCHANGED x]_x
==============================================================================

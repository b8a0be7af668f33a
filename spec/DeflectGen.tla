----------------------------- MODULE DeflectGen -----------------------------
(* the lattice of deflections: which pair of vehicles, planet, arrival octant,  *)
(* aim angle of the first, aim angle of the second relative to it (8ths of a    *)
(* turn), arrival speed and distance of the manoeuvre                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Dirs == { <<x, y, z>> : x \in {-1, 1}, y \in {-1, 1}, z \in {-1, 1} }
Cases == [kind : 0..2, planet : 0..7, dir : Dirs, psi : 0..3, turn : {0, 1, 3, 4, 6}, speed : 0..2, dist : 0..3]
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Cases))
GSpec == GInit /\ [][UNCHANGED x]_x
==============================================================================

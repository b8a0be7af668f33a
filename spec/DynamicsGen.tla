----------------------------- MODULE DynamicsGen -----------------------------
(* the lattice of flight situations: planet, air or vacuum, lift, bank, heading, *)
(* latitude, path angle, drag law                                               *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Cases == [planet : 0..7, air : {0, 1}, ld : {0, 1, 2}, bank : 0..7, head : 0..7, lat : {-2, -1, 0, 1, 2}, path : {-2, -1, 0, 1}, cdm : {0, 1}]
\* in a vacuum, lift and drag do not matter: one representative each
Keep(c) == (c.air = 0 => c.ld = 1 /\ c.cdm = 0) /\ (c.ld = 0 => c.bank \in {0, 3})
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq({ c \in Cases : Keep(c) }))
GSpec == GInit /\ [][UNCHANGED x]_x
==============================================================================

------------------------------- MODULE ViewGen -------------------------------
(* what looks at what: lander to planet, lander to orbiter, orbiter to planet;  *)
(* pairs share the orbiter object, in either order (they must not disturb each  *)
(* other)                                                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Planets == 0..7
L2P == [kind : {"l2p"}, planet : Planets, target : 0..8, lat : -3..3, date : 0..3, n : 0..2]
Dirs == { <<x, y, z>> : x \in {-1, 1}, y \in {-1, 1}, z \in {-1, 1} }
Views == { <<"l2o">>, <<"o2p">>, <<"l2o", "o2p">>, <<"o2p", "l2o">>, <<"l2o", "l2o">> }
Orb == [kind : {"orb"}, planet : Planets, dir : Dirs, psi : 0..3, size : 0..2, lat : -3..3, span : 0..2, views : Views]
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(L2P) \o SetToSeq(Orb))
GSpec == GInit /\ [][UNCHANGED x]_x
==============================================================================

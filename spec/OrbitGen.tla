------------------------------ MODULE OrbitGen ------------------------------
(* missions after capture: geometry of the exit (planet, heading octant,        *)
(* latitude, size of the orbit), and what is asked of the orbit afterwards      *)
(* (histories of Mission.tla: probe targeting, orbiter deflection, redrawing    *)
(* the coast or the orbit); and propulsive captures with timed positions        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT MaxOps
Ops == {"T", "D", "C", "O"}
RECURSIVE Hist(_)
Hist(n) == IF n = 0 THEN { <<>> } ELSE LET h == Hist(n - 1) IN h \cup { Append(s, o) : s \in { x \in h : Len(x) = n - 1 }, o \in Ops }
\* a deflection needs a probe to have been targeted
Legal(s) == \A k \in 1..Len(s) : s[k] = "D" => \E j \in 1..(k - 1) : s[j] = "T"
Histories == { s \in Hist(MaxOps) : Legal(s) }
Aero == [kind : {"aero"}, planet : 0..7, heading : 0..7, lat : -2..2, size : 0..2, hist : Histories]
Dirs == { <<x, y, z>> : x \in {-1, 1}, y \in {-1, 1}, z \in {-1, 1} }
Prop == [kind : {"prop"}, planet : 0..7, dir : Dirs, psi : 0..7, speed : 0..2, size : 0..3, span : 0..2]
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Aero) \o SetToSeq(Prop))
GSpec == GInit /\ [][UNCHANGED x]_x
==============================================================================

------------------------------- MODULE LinkGen -------------------------------
(* passes: windows (in quarters of a time step; up to MaxWindows of them, any    *)
(* order, empty, touching, overlapping, backwards, outside the span) and the     *)
(* times in sight; and link descriptions: how each antenna is described          *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Ends, MaxWindows, Points
Windows == Ends \X Ends
WindowLists == UNION { [1..k -> Windows] : k \in 0..MaxWindows }
Sight == [1..Points -> {0, 1}]
Passes == [kind : {"pass"}, windows : WindowLists, sight : Sight]
\* an antenna: dish with efficiency, a gain, both (the dish counts), a dish without efficiency and a gain, a gain of zero, a negative gain
Antenna == {"dish", "gain", "both", "half", "zero", "negative"}
Links == [kind : {"link"}, tx : Antenna, rx : Antenna, defaults : 0..1, band : 0..2, variant : 0..1]
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Passes) \o SetToSeq(Links))
GSpec == GInit /\ [][UNCHANGED x]_x
==============================================================================

--------------------------- MODULE AtmosphereGen ---------------------------
(* Files and draw sequences for the real loader.  Shapes are enumerated; the   *)
(* numbers are spread by a fixed mixing function so that no two rows are alike. *)
EXTENDS AtmosphereOps, SequencesExt, TLC, Json, IOUtils
CONSTANTS Seed, MaxProf, MaxPos, SigMax, NDraw
Mix(a, b, c, m) == (((Seed * 31 + a) * 37 + b) * 41 + c * 53 + (a * b + c) * 7) % m
\* altitudes of profile p, in quarter units; gaps differ; reversed if rev
Alt(p, k, s) == 8 * (k - 1) + (IF k = 1 THEN 0 ELSE 4 * Mix(p, k, s, 2)) + 4 * Mix(p, 1, s, 3)
Hseq(p, n, rev, s) == [ k \in 1..n |-> Alt(p, IF rev THEN n + 1 - k ELSE k, s) ]
File(np, n, rev, s) ==
    [ h   |-> [ j \in 1..(np * n) |-> Hseq((j - 1) \div n + 1, n, rev, s)[((j - 1) % n) + 1] ],
      av  |-> [ j \in 1..(np * n) |-> 100 * (3 + Mix(j, 2, s, 40)) ],
      low |-> [ j \in 1..(np * n) |-> 1 + Mix(j, 3, s, 90) ],
      up  |-> [ j \in 1..(np * n) |-> 1 + Mix(j, 5, s, 90) ],
      per |-> [ j \in 1..(np * n) |-> (Mix(j, 7, s, 160)) - 80 ],
      pct |-> [ j \in 1..(np * n) |-> 1 + Mix(j, 11, s, 60) ] ]
Shapes == { <<np, n>> : np \in 1..MaxProf, n \in 2..MaxPos }
Sigs == { -SigMax, -4, -1, 0, 1, 4, SigMax }
Draws(np) == { [i |-> i, sig |-> s, model |-> m] : i \in 1..np, s \in Sigs, m \in {5, 6} }
\* draw sequences: each draw once, in an order that depends on the shape, in groups of NDraw
Order(np, s) == LET d == SetToSeq(Draws(np)) m == Len(d) g == IF m % 5 = 0 THEN 3 ELSE 5 IN [ k \in 1..m |-> d[((k * g + s) % m) + 1] ]
Cases == { [ np |-> sh[1], npos |-> sh[2], rev |-> rv, file |-> File(sh[1], sh[2], rv, s), draws |-> Order(sh[1], s), kind |-> kd, km |-> u ]
           : sh \in Shapes, rv \in BOOLEAN, s \in 1..NDraw, kd \in {2, 3}, u \in BOOLEAN }
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Cases))
GSpec == GInit /\ [][UNCHANGED x]_x
=============================================================================

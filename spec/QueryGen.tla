------------------------------ MODULE QueryGen ------------------------------
(* histories of a planet: tables loaded, top of the atmosphere moved, queries   *)
EXTENDS AtmosphereOps, SequencesExt, TLC, Json, IOUtils
CONSTANTS Seed, Len1
\* two tables of different shape; altitudes in quarter km
Mix(a, b, m) == (((Seed * 31 + a) * 37 + b) * 41 + a * b * 7) % m
Tab(id, n, step, off, rev) == [ id |-> id,
    h |-> [ k \in 1..n |-> LET j == (IF rev THEN n + 1 - k ELSE k) IN off + step * (j - 1) + (IF j = 1 THEN 0 ELSE Mix(id, j, 3)) ],
    d |-> [ k \in 1..n |-> 10 + (Mix(id + 1, k, 900)) ],
    t |-> [ k \in 1..n |-> 100 + (Mix(id + 2, k, 500)) ],
    p |-> [ k \in 1..n |-> 50 + (Mix(id + 3, k, 5000)) ] ]
Tabs == << Tab(1, 5, 9, 0, FALSE), Tab(2, 6, 7, 0, TRUE), Tab(3, 4, 16, 4, FALSE), Tab(4, 7, 5, 0, FALSE) >>
Ops == {"load1", "load2", "load3", "load4", "lower", "raise", "ask"}
Loads == {"load1", "load2", "load3", "load4"}
Ok(h) == /\ h[1] \in Loads /\ h[Len(h)] = "ask"
         /\ \A k \in 1..(Len(h)-1) : h[k] = "ask" => h[k+1] # "ask"
Hist == { h \in UNION { [1..n -> Ops] : n \in 2..Len1 } : Ok(h) }
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, [tabs |-> Tabs, hist |-> SetToSeq(Hist)])
GSpec == GInit /\ [][UNCHANGED x]_x
=============================================================================

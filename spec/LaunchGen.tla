------------------------------ MODULE LaunchGen ------------------------------
(* tables in every order of their rows, and catalogues with rows inside, at the *)
(* ends of and outside the tabulated range, in every order                      *)
EXTENDS AtmosphereOps, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS Seed, NPts
Mix(a, m) == ((Seed * 31 + a) * 37 + a * a * 7) % m
Pts(n) == [ k \in 1..n |-> [e |-> 12 * (k - 1) + (Mix(k, 7)) + (Mix(50, 9)) - 8, m |-> 40 + (Mix(k + 9, 900))] ]
Perms(n) == { f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j] }
AllTables == UNION { { [ k \in 1..n |-> Pts(n)[p[k]] ] : p \in Perms(n) } : n \in 2..NPts }
\* where a row's energy lies: below, at the low end, inside, at the high end, above
Zones == 0..4
Cats == UNION { [1..n -> Zones] : n \in 1..4 }
VARIABLE x
GInit == x = 0 /\ JsonSerialize(IOEnv.OUT_FILE, [tables |-> SetToSeq(AllTables), cats |-> SetToSeq(Cats)])
GSpec == GInit /\ [][UNCHANGED x]_x
==============================================================================

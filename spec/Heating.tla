------------------------------- MODULE Heating -------------------------------
(* A vehicle in denser air, faster or with another nose: laws that the         *)
(* correlations of every planet keep.                                          *)
EXTENDS HeatingOps
CONSTANTS Grain
VARIABLES p, rho, v, rn, last
vars == <<p, rho, v, rn, last>>
Speeds == {33010 + k * Grain : k \in 0..((47000 - 33010) \div Grain)}
Con(r, s, n) == Law(Convective[p], r, s, n)
Rad(r, s, n) == Law(RadLaw(p, s), r, s, n)
Init == /\ p \in Planets /\ rho \in {-80000, -40000, -10000} /\ v \in Speeds /\ rn \in {-10000, 0, 5000} /\ last = "start"
Denser == rho < -5000 /\ rho' = rho + 5000 /\ last' = "denser" /\ UNCHANGED <<p, v, rn>>
Faster == v + Grain <= 47000 /\ v' = v + Grain /\ last' = "faster" /\ UNCHANGED <<p, rho, rn>>
Blunter == rn < 5000 /\ rn' = rn + 5000 /\ last' = "blunter" /\ UNCHANGED <<p, rho, v>>
Next == Denser \/ Faster \/ Blunter
Spec == Init /\ [][Next]_vars
Hot == p \notin NoRadiation \cup {"EARTH"}
\* denser and faster is hotter, blunter has less convective heating
Hotter == [][/\ (rho' > rho \/ v' > v) => Con(rho, v, rn)' > Con(rho, v, rn)
             /\ rn' > rn => Con(rho, v, rn)' < Con(rho, v, rn)]_vars
HotterRadiation == [][Hot /\ (rho' > rho \/ v' > v) => Rad(rho, v, rn)' > Rad(rho, v, rn)]_vars
\* a fourfold nose radius halves the convective heating
HalfByFour == Con(rho, v, rn + 6021) - Con(rho, v, rn) \in -3012..-3009
\* the ranges of speed join (within a fortieth of a decade)
Joins == p = "VENUS" => \A b \in {39031, 40000} : LET d == Rad(rho, b, rn) - Law(Venus(b - 1), rho, b, rn) IN d \in -50..50
EarthTableRises == \A k \in 8..17 : TauberSutton(k * 1000) <= TauberSutton((k * 1000) + 500) /\ TauberSutton((k * 1000) + 500) <= TauberSutton((k + 1) * 1000)
=============================================================================

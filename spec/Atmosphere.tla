----------------------------- MODULE Atmosphere -----------------------------
(* A planet holding one atmosphere table.  Tables are loaded, samples are drawn *)
(* from files of several profiles, samples may be put in force, queries are     *)
(* answered; drawing a sample changes nothing but the caller's own value.       *)
EXTENDS AtmosphereOps
CONSTANTS Vals, Steps
Sigs == {-4, -1, 0, 2, 4}
Queries == {-1, 0, 1, 4, 5, 6}
Thr == 5
Rho0 == 9
NPos == 2
NProf == 2
Hs == <<0, 4>>                        \* altitudes of every table
Rows == [lo : Vals, av : Vals, hi : Vals, tot : Vals]
Ok(r) == r.lo <= r.av /\ r.av <= r.hi
\* a file: NProf profiles of NPos rows; rows of one profile are equal, to stay small
Files == { [ lo |-> <<a.lo, a.lo, b.lo, b.lo>>, av |-> <<a.av, a.av + 1, b.av, b.av + 1>>, hi |-> <<a.hi, a.hi + 1, b.hi, b.hi + 1>>, tot |-> <<a.tot, a.tot, b.tot, b.tot>> ]
           : a \in {r \in Rows : Ok(r)}, b \in {r \in Rows : Ok(r)} }
VARIABLES table, file, draws, answers, n
vars == <<table, file, draws, answers, n>>
Init == /\ file \in Files /\ table = <<>> /\ draws = {} /\ answers = {} /\ n = 0
Load == \E a, b \in Vals : table' = <<4 * a, 4 * b>> /\ answers' = {} /\ UNCHANGED <<file, draws>>
Draw == \E i \in 1..NProf, s \in Sigs, p \in BOOLEAN :
           /\ draws' = draws \cup {[i |-> i, sig |-> s, pert |-> p, tab |-> SampleTable(file, NPos, i, s, p)]}
           /\ UNCHANGED <<table, file, answers>>
Use == \E d \in draws : table' = d.tab /\ answers' = {} /\ UNCHANGED <<file, draws>>
Ask == table # <<>> /\ \E h \in Queries : answers' = answers \cup {<<h, FlightDensity(Hs, table, h, Thr, Rho0)>>} /\ UNCHANGED <<table, file, draws>>
Next == n < Steps /\ n' = n + 1 /\ (Load \/ Draw \/ Use \/ Ask)
Spec == Init /\ [][Next]_vars

\* draws depend on their own profile only: the same draw from a file that differs elsewhere gives the same sample
Other(f, i) == [ k \in {"lo", "av", "hi", "tot"} |-> [ j \in 1..(NPos * NProf) |-> IF (j - 1) \div NPos + 1 = i THEN f[k][j] ELSE f[k][j] + 1 ] ]
OwnProfileOnly == \A d \in draws : SampleTable(Other(file, d.i), NPos, d.i, d.sig, d.pert) = d.tab
ZeroIsMean == \A d \in draws : d.sig = 0 /\ ~d.pert => d.tab = [ k \in 1..NPos |-> 4 * Slice(file.av, NPos, d.i)[k] ]
PertIsAdded == \A d, e \in draws : d.i = e.i /\ d.sig = e.sig /\ d.pert /\ ~e.pert =>
                  \A k \in 1..NPos : d.tab[k] - e.tab[k] = 4 * (Slice(file.tot, NPos, d.i)[k] - Slice(file.av, NPos, d.i)[k])
RightSide == \A d \in draws : ~d.pert => \A k \in 1..NPos :
                 LET av == 4 * Slice(file.av, NPos, d.i)[k] IN (d.sig >= 0 => d.tab[k] >= av) /\ (d.sig <= 0 => d.tab[k] <= av)
\* one sigma reaches exactly the bound of the side it is on
ReachesBound == \A d \in draws : ~d.pert => \A k \in 1..NPos :
                  (d.sig = 4 => d.tab[k] = 4 * Slice(file.hi, NPos, d.i)[k]) /\ (d.sig = -4 => d.tab[k] = 4 * Slice(file.lo, NPos, d.i)[k])
Monotone == \A d, e \in draws : d.i = e.i /\ d.pert = e.pert /\ d.sig <= e.sig => \A k \in 1..NPos : d.tab[k] <= e.tab[k]
OneAnswer == \A a, b \in answers : a[1] = b[1] => a[2] = b[2]
Zones == \A a \in answers : (a[1] > Thr => a[2] = <<0, 1>>) /\ (a[1] < 0 => a[2] = <<Rho0, 1>>)
Chord == \A a \in answers : 0 <= a[1] /\ a[1] <= Thr /\ Inside(Hs, a[1]) =>
            LET lo == MinOf({table[1], table[2]}) hi == MaxOf({table[1], table[2]}) IN lo * a[2][2] <= a[2][1] /\ a[2][1] <= hi * a[2][2]
DrawChangesNothing == [][ draws' # draws => UNCHANGED <<table, file, answers>> ]_vars
=============================================================================

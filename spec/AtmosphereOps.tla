--------------------------- MODULE AtmosphereOps ---------------------------
(* Atmosphere tables and what a query of one must return, in exact integer    *)
(* arithmetic.  A table is a sequence of altitudes (any order, all different) *)
(* and a sequence of values; a value between two altitudes is the rational    *)
(* <<numerator, denominator>> on the chord.                                   *)
EXTENDS Integers, Sequences, FiniteSets

Alts(hs) == { hs[k] : k \in 1..Len(hs) }
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Inside(hs, h) == \E a, b \in Alts(hs) : a <= h /\ h <= b
Below(hs, h) == MaxOf({ a \in Alts(hs) : a <= h })
Above(hs, h) == MinOf({ a \in Alts(hs) : h <= a })
At(hs, ds, h) == ds[CHOOSE k \in 1..Len(hs) : hs[k] = h]
\* linear interpolation; outside its altitudes a table is zero
Value(hs, ds, h) ==
    IF ~Inside(hs, h) THEN <<0, 1>>
    ELSE LET a == Below(hs, h)
             b == Above(hs, h)
         IN IF a = b THEN <<At(hs, ds, a), 1>>
            ELSE <<At(hs, ds, a) * (b - h) + At(hs, ds, b) * (h - a), b - a>>
\* an observed value, in units of 1/s of the table's unit, agrees with a rational
Agrees(obs, r, s, tol) == LET x == obs * r[2] - s * r[1] IN (IF x < 0 THEN -x ELSE x) <= tol * r[2]

\* ------------------------------------------------ Monte Carlo profiles
\* rows of profile i (counting from 1) of a file with npos rows per profile
Slice(s, npos, i) == SubSeq(s, (i - 1) * npos + 1, i * npos)
\* density of a sample, times 4; sig4 is four times the dispersion factor
Disperse(lo, av, hi, sig4) == 4 * av + sig4 * (IF sig4 >= 0 THEN hi - av ELSE av - lo)
SampleTable(f, npos, i, sig4, pert) ==
    LET lo == Slice(f.lo, npos, i) av == Slice(f.av, npos, i) hi == Slice(f.hi, npos, i) tot == Slice(f.tot, npos, i)
    IN [ k \in 1..npos |-> Disperse(lo[k], av[k], hi[k], sig4) + (IF pert THEN 4 * (tot[k] - av[k]) ELSE 0) ]

\* ------------------------------------------------ the atmosphere used in flight
\* h: altitude, thr: top of the atmosphere, rho0: surface reference value
FlightDensity(hs, ds, h, thr, rho0) ==
    IF h < 0 THEN <<rho0, 1>> ELSE IF h > thr THEN <<0, 1>> ELSE Value(hs, ds, h)
=============================================================================

-------------------------------- MODULE Loads --------------------------------
(* The heat load ledger of a vehicle.  A flight is a sequence of samples one   *)
(* time unit apart, each with a heat rate; the heat load (counted twice, so    *)
(* that the trapezoidal integral stays an integer) starts at the configured    *)
(* initial load.  A flight may be continued from where it ended; heating for   *)
(* other nose radii is evaluated on the side.                                  *)
EXTENDS Integers, Sequences
CONSTANTS MaxOps, Rates, MaxFlight, Scales
VARIABLES init2, nose, rates, load2, ops, swept, source
vars == <<init2, nose, rates, load2, ops, swept, source>>

\* twice the trapezoidal integral of the first k samples
RECURSIVE Trapz2(_, _)
Trapz2(r, k) == IF k <= 1 THEN 0 ELSE Trapz2(r, k - 1) + r[k - 1] + r[k]
Ledger(i2, r) == [ k \in 1..Len(r) |-> i2 + Trapz2(r, k) ]
Histories == UNION { [1..n -> Rates] : n \in 1..MaxFlight }

Init == init2 = 0 /\ nose = 1 /\ rates = <<>> /\ load2 = <<>> /\ ops = 0 /\ swept = <<>> /\ source = "config"
Configure == /\ ops < MaxOps /\ ops' = ops + 1
             /\ init2' \in {0, 6} /\ source' = "config"
             /\ UNCHANGED <<nose, rates, load2, swept>>
Chain == /\ ops < MaxOps /\ Len(load2) > 0 /\ ops' = ops + 1
         /\ init2' = load2[Len(load2)] /\ source' = "last"
         /\ UNCHANGED <<nose, rates, load2, swept>>
Fly == /\ ops < MaxOps /\ ops' = ops + 1
       /\ \E h \in Histories : rates' = [ k \in 1..Len(h) |-> nose * h[k] ] /\ load2' = Ledger(init2, rates')
       /\ UNCHANGED <<init2, nose, swept, source>>
\* heating with nose factor s along the flight just flown
Sweep == /\ ops < MaxOps /\ Len(rates) > 0 /\ ops' = ops + 1
         /\ \E s \in Scales : swept' = Append(swept, [s |-> s, total2 |-> Trapz2([ k \in 1..Len(rates) |-> s * (rates[k] \div nose) ], Len(rates)),
                                                      alone2 |-> s * Trapz2([ k \in 1..Len(rates) |-> rates[k] \div nose ], Len(rates))])
         /\ UNCHANGED <<init2, nose, rates, load2, source>>
Next == Configure \/ Chain \/ Fly \/ Sweep
Spec == Init /\ [][Next]_vars

NeverDecreases == \A k \in 1..(Len(load2) - 1) : load2[k] <= load2[k + 1]
GrowsByTheIntegral == \A j, k \in 1..Len(load2) : j <= k => load2[k] - load2[j] = Trapz2(rates, k) - Trapz2(rates, j)
SweepIsDedicatedFlight == \A k \in 1..Len(swept) : swept[k].total2 = swept[k].alone2
=============================================================================

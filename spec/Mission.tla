------------------------------ MODULE Mission ------------------------------
(* A mission about a planet: legs joined by burns.  A leg is the orbit that    *)
(* passes through its point of departure with the velocity after the burn; the *)
(* orbit left behind stays what it was, and a manoeuvre computed again starts   *)
(* from the same leg as the first time.  Two dimensions are enough to tell the  *)
(* legs apart: an orbit is <<tag, of, where, size>>: which leg it was derived   *)
(* from, at which point and with which burn.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Where, Size, MaxOps
Legs == {"coast", "orbit", "probe", "deflected"}
NoLeg == [from |-> "none", where |-> 0, size |-> 0, gen |-> 0]
VARIABLES leg, ops, burns, last
vars == <<leg, ops, burns, last>>
\* flight exit gives the coast orbit; the raise at apoapsis gives the orbit
Init == /\ leg = [l \in Legs |-> CASE l = "coast" -> [from |-> "exit", where |-> 0, size |-> 0, gen |-> 1]
                                   [] l = "orbit" -> [from |-> "coast", where |-> 180, size |-> 0, gen |-> 1] [] OTHER -> NoLeg]
        /\ ops = <<>> /\ burns = <<>> /\ last = "none"
Parent == [probe |-> "orbit", deflected |-> "probe"]
Burn(l, w, d) == /\ Len(ops) < MaxOps /\ leg[Parent[l]] # NoLeg
                 /\ leg' = [leg EXCEPT ![l] = [from |-> Parent[l], where |-> w, size |-> d, gen |-> leg[Parent[l]].gen + 1]]
                 /\ ops' = Append(ops, <<l, w, d>>)
                 /\ burns' = Append(burns, [leg |-> l, parent |-> leg[Parent[l]], where |-> w, size |-> d])
                 /\ last' = l
Redraw(l) == /\ Len(ops) < MaxOps /\ leg[l] # NoLeg /\ l \in {"orbit"}
             /\ ops' = Append(ops, <<"redraw", 0, 0>>) /\ UNCHANGED <<leg, burns>> /\ last' = "redraw"
Next == \/ \E l \in {"probe", "deflected"}, w \in Where, d \in Size : Burn(l, w, d)
        \/ Redraw("orbit")
Spec == Init /\ [][Next]_vars
\* a burn never disturbs the legs before it
ParentsStay == [][\A l \in Legs : leg'[l] # leg[l] => last' = l]_vars
\* each leg comes from the current version of its parent at the time of the burn
JoinUp == \A k \in 1..Len(burns) : LET b == burns[k] IN b.parent # NoLeg /\ (b.leg = "probe" => b.parent = leg["orbit"])
CoastAndOrbitStay == leg["coast"].gen = 1 /\ leg["orbit"].gen = 1
Repeatable == \A j, k \in 1..Len(burns) : (burns[j].leg = "probe" /\ burns[k].leg = "probe") => burns[j].parent = burns[k].parent
=============================================================================

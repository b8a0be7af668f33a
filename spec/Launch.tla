------------------------------- MODULE Launch -------------------------------
(* A launch vehicle's capability table, and a trajectory catalogue asking it.  *)
EXTENDS AtmosphereOps
CONSTANTS Energies, Masses, MaxRows, MaxAsk
VARIABLES hs, ms, cat, col, asked
vars == <<hs, ms, cat, col, asked>>
Init == hs = <<>> /\ ms = <<>> /\ cat = <<>> /\ col = <<>> /\ asked = {}
AddPoint == /\ cat = <<>> /\ asked = {} /\ Len(hs) < 3
            /\ \E e \in Energies \ Alts(hs), m \in Masses : hs' = Append(hs, e) /\ ms' = Append(ms, m)
            /\ UNCHANGED <<cat, col, asked>>
Capability(e) == Value(hs, ms, e)
Ask == /\ Len(hs) >= 2 /\ Cardinality(asked) < MaxAsk
       /\ \E e \in Energies : asked' = asked \cup {<<e, Capability(e)>>}
       /\ UNCHANGED <<hs, ms, cat, col>>
AddRow == /\ Len(hs) >= 2 /\ Len(cat) < MaxRows /\ col = <<>>
          /\ \E e \in Energies : cat' = Append(cat, [id |-> Len(cat) + 1, c3 |-> e])
          /\ UNCHANGED <<hs, ms, col, asked>>
Compute == /\ cat # <<>> /\ col = <<>>
           /\ col' = [ k \in 1..Len(cat) |-> [id |-> cat[k].id, m |-> Capability(cat[k].c3)] ]
           /\ UNCHANGED <<hs, ms, cat, asked>>
Next == AddPoint \/ Ask \/ AddRow \/ Compute
Spec == Init /\ [][Next]_vars
ZeroOutside == \A a \in asked : ~Inside(hs, a[1]) => a[2][1] = 0
TableAtTable == \A a \in asked : \A k \in 1..Len(hs) : a[1] = hs[k] => a[2] = <<ms[k], 1>>
NeverExtrapolates == \A a \in asked : Len(ms) > 0 => a[2][1] <= MaxOf(Alts(ms)) * a[2][2] /\ a[2][1] >= 0
OneAnswer == \A a, b \in asked : a[1] = b[1] => a[2] = b[2]
Aligned == col # <<>> => Len(col) = Len(cat) /\ \A k \in 1..Len(cat) : col[k].id = cat[k].id /\ col[k].m = Capability(cat[k].c3)
=============================================================================

---------------------------- MODULE CorridorTrace ----------------------------
(* Searches and capture tests of the real code judged by Corridor.tla.        *)
(*  stub   : a search over an arbitrary side function (grid cells of width     *)
(*           1024 units centred on the grid points); x is the returned angle   *)
(*  search : a search with real flights; sides are those of independent        *)
(*           flights (orbit computed from the end state by the recorder)       *)
(*  verdict: one capture test / target test                                    *)
(*  width  : corridor width against its two limits                             *)
EXTENDS TraceKit
VARIABLES l, viol
tvars == <<l, viol>>
VARIABLES side, br, tol, lo, hi, st, res
cvars == <<side, br, tol, lo, hi, st, res>>
C == INSTANCE Corridor WITH N <- 8, Tols <- {1}, Brackets <- {<<0, 8>>}

U == 1024
N == 8
Cell(x) == LET c == (x + (U \div 2)) \div U IN IF c < 0 THEN 0 ELSE IF c > N THEN N ELSE c
GapTo(x, c) == IF x > (c * U) + (U \div 2) THEN x - ((c * U) + (U \div 2))
               ELSE IF x < (c * U) - (U \div 2) THEN ((c * U) - (U \div 2)) - x ELSE 0
StubClauses(e) ==
    LET s(c) == e.side[c + 1]
        differ == s(e.lo) # s(e.hi)
        inb(x) == (Min2(e.lo, e.hi) * U) - 1 <= x /\ x <= (Max2(e.lo, e.hi) * U) + 1 IN
    { <<"success-exactly-when-ends-differ", e.found = (IF differ THEN 1 ELSE 0)>>,
      <<"angle-in-bracket", e.found = 1 => inb(e.x)>>,
      <<"angle-on-high-end-side", e.found = 1 /\ differ => s(Cell(e.x)) = s(e.hi)>>,
      <<"boundary-within-tolerance", e.found = 1 /\ differ =>
            \E c \in 0..N : s(c) # s(Cell(e.x)) /\ GapTo(e.x, c) <= ((e.tol * U) \div 2) + 1>>,
      <<"flown-at-required-bank", \A i \in 1..Len(e.banks) : e.banks[i] = e.wantbank>>,
      <<"flown-with-required-lift-and-drag", Within(e.cfg, 100)>> }
SideOf(f) == C!Side(f.lost = 1, f.esc = 1, f.vs)
SearchClauses(e) ==
    LET a == SideOf(e.low) b == SideOf(e.high) IN
    { <<"success-exactly-when-ends-differ", e.found = (IF a # b THEN 1 ELSE 0)>>,
      <<"angle-in-bracket", e.found = 1 => e.inside = 1>>,
      <<"angle-on-high-end-side", e.found = 1 /\ a # b => SideOf(e.at) = b>>,
      <<"boundary-within-tolerance", e.found = 1 /\ a # b =>
            \E i \in 1..Len(e.near) : SideOf(e.near[i]) # SideOf(e.at)>> }
VerdictClauses(e) ==
    IF e.kind = "target" THEN { <<"target-test", e.got = SideOf(e.f)>> }
    ELSE { <<"capture-test", e.got = C!Captured(e.esign)>> }
WidthClauses(e) == { <<"corridor-width", Within(e.diff, 100)>> }
Clauses(e) == CASE e.ev = "stub" -> StubClauses(e)
                [] e.ev = "search" -> SearchClauses(e)
                [] e.ev = "verdict" -> VerdictClauses(e)
                [] e.ev = "width" -> WidthClauses(e)

TraceInit == /\ l = 1 /\ viol = <<>>
             /\ side = [a \in 0..8 |-> 1] /\ br = <<0, 8>> /\ tol = 1 /\ lo = 0 /\ hi = 0 /\ st = "trace" /\ res = -1
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1 /\ UNCHANGED cvars
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED <<tvars, cvars>>
TraceSpec == TraceInit /\ [][Consume \/ Done]_<<tvars, cvars>>
==============================================================================

----------------------------- MODULE LaunchTrace -----------------------------
(* Launch capability of the real code: C13.                                    *)
(*  table  : the table of the launcher (energies in quarter units, masses)     *)
(*  ask    : energies and observed masses (1e-3), scalar by scalar and in one  *)
(*           array; forms = how many input forms gave a different answer       *)
(*  real   : a launcher that comes with the code, residuals                    *)
(*  cat    : a catalogue: for each row its identity, energy and the observed   *)
(*           capability, and the identity read off date, flight time, speed    *)
(*  plot   : identities of the points of a plot, axis by axis                  *)
EXTENDS TraceKit, AtmosphereOps
VARIABLES l, viol, tab
tvars == <<l, viol, tab>>
Ok(e, m) == IF Inside(tab.h, e) THEN Agrees(m, Value(tab.h, tab.m, e), 1000, 2) ELSE m = 0
AskClauses(e) ==
    LET K == 1..Len(e.qs) IN
    { <<"table-value-at-table-energies", \A k \in K : e.qs[k] \in Alts(tab.h) => Ok(e.qs[k], e.one[k])>>,
      <<"interpolated-between", \A k \in K : Inside(tab.h, e.qs[k]) => Ok(e.qs[k], e.one[k])>>,
      <<"zero-outside-the-table", \A k \in K : ~Inside(tab.h, e.qs[k]) => e.one[k] = 0>>,
      <<"array-equals-scalar", e.arr = e.one>>, <<"every-form-of-query-agrees", e.forms = 0>> }
RealClauses(e) == { <<"launcher-table-at-table-energies", Within(e.node, 1000)>>, <<"launcher-interpolates", Within(e.mid, 1000)>>,
                    <<"launcher-zero-outside", e.out = 0>>, <<"launcher-array-equals-scalar", e.same = 0>> }
CatClauses(e) ==
    { <<"catalogue-one-capability-per-trajectory", e.n = Len(e.id) /\ Len(e.mass) = e.n>>,
      <<"catalogue-capability-at-its-own-energy", Len(e.mass) = Len(e.c3) /\ \A k \in 1..Len(e.c3) : Ok(e.c3[k], e.mass[k])>>,
      <<"catalogue-keeps-its-rows", e.c3id = e.id /\ e.date = e.id /\ e.tof = e.id /\ e.vinf = e.id>>,
      <<"catalogue-unchanged-by-asking", e.kept = 1>> }
PlotClauses(e) == { <<"plot-shows-each-trajectory-once", Len(e.x) = e.n /\ Len(e.y) = e.n>>,
                    <<"plot-pairs-belong-together", e.x = e.y /\ (Len(e.c) > 0 => e.c = e.x)>> }
Clauses(e) == CASE e.ev = "table" -> {} [] e.ev = "ask" -> AskClauses(e) [] e.ev = "real" -> RealClauses(e)
                [] e.ev = "cat" -> CatClauses(e) [] e.ev = "plot" -> PlotClauses(e)
TraceInit == l = 1 /\ viol = <<>> /\ tab = [h |-> <<>>]
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                /\ viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
                /\ tab' = IF e.ev = "table" THEN e ELSE tab
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

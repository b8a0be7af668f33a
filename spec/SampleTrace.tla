---------------------------- MODULE SampleTrace ----------------------------
(* Samples drawn by the real code, judged by the specification: C10.            *)
(*  file   : the file of the case (integers; altitudes in quarter units)        *)
(*  sample : a draw (profile i, 4*sigma, with or without perturbation) and the  *)
(*           observed densities (1e-3 of the unit, times 4) at altitudes qs     *)
(*  real   : a draw from a real file; residual against an independent table     *)
(*  kept   : whether anything but the result changed                            *)
EXTENDS TraceKit, AtmosphereOps
VARIABLES l, viol, f
tvars == <<l, viol, f>>
Scale == 1000
Tol == 2
SampleClauses(e) ==
    LET hs == Slice(f.h, f.npos, e.i)
        ds == SampleTable(f, f.npos, e.i, e.sig, e.pert)
        ok(k) == Agrees(e.obs[k], Value(hs, ds, e.qs[k]), Scale, Tol)
        K == 1..Len(e.qs)
    IN { <<"sample-is-its-own-profile-at-its-altitudes", \A k \in K : e.qs[k] \in Alts(hs) => ok(k)>>,
         <<"sample-is-linear-in-between", \A k \in K : Inside(hs, e.qs[k]) /\ e.qs[k] \notin Alts(hs) => ok(k)>>,
         <<"sample-is-zero-outside", \A k \in K : ~Inside(hs, e.qs[k]) => e.obs[k] = 0>> }
RealClauses(e) ==
    { <<"real-file-own-profile", Within(e.own, 1000)>>, <<"real-file-linear-between", Within(e.mid, 1000)>>,
      <<"real-file-zero-outside", e.out = 0>>, <<"real-file-right-side", e.side = 0>> }
KeptClauses(e) == { <<"draw-changes-nothing-else", e.changed = 0>> }
Clauses(e) == CASE e.ev = "file" -> {} [] e.ev = "sample" -> SampleClauses(e) [] e.ev = "real" -> RealClauses(e) [] e.ev = "kept" -> KeptClauses(e)
TraceInit == l = 1 /\ viol = <<>> /\ f = [npos |-> 0]
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                /\ viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
                /\ f' = IF e.ev = "file" THEN e ELSE f
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

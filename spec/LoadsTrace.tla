----------------------------- MODULE LoadsTrace -----------------------------
(* Loads and heating of real flights: C08.  Residuals are relative, 1e-9.     *)
(*  fly   : the load series of one flight of a history; cfg / last = residual *)
(*          of the first heat load entry against the configured value / the   *)
(*          last entry of the flight before                                   *)
(*  sweep : heating for several nose radii against flights with each radius   *)
(*  mach  : Mach number and stagnation temperature                            *)
(*  law   : heating at one point: logarithms (1/10000) of density, speed, nose  *)
(*          radius and heat rates; fv: the Earth velocity function found       *)
(*  unit  : unit conversions of the series                                     *)
EXTENDS TraceKit, HeatingOps
VARIABLES l, viol, src
tvars == <<l, viol, src>>
FlyClauses(e, s) ==
    { <<"heat-rate-is-the-sum-of-its-parts", Within(e.sum, 10)>>,
      <<"heat-rate-nonnegative", e.neg = 0>>,
      <<"heats-in-the-atmosphere", e.cold = 0>>,
      <<"dynamic-pressure", Within(e.dyn, 100)>>,
      <<"stagnation-pressure-adds-static-pressure", Within(e.stag, 100)>>,
      <<"net-load-is-the-norm-of-its-components", Within(e.net, 100)>>,
      <<"drag-load-is-the-drag-part", Within(e.drag, 100)>>,
      <<"heat-load-starts-at-the-configured-value", s = "config" => Within(e.cfg, 10)>>,
      <<"heat-load-continues-where-it-ended", s = "last" => Within(e.last, 10)>>,
      <<"heat-load-never-decreases", e.dec = 0>>,
      <<"heat-load-grows-by-the-integral-of-the-heat-rate", Within(e.int, 100)>>,
      <<"series-aligned", \A i \in 1..Len(e.lens) : e.lens[i] = e.lens[1]>> }
SweepClauses(e) ==
    { <<"sweep-peak-is-that-of-the-flight-with-the-radius", Within(e.peak, 1000)>>,
      <<"sweep-load-is-that-of-the-flight-with-the-radius", Within(e.load, 1000)>>,
      <<"sweep-covers-every-radius", e.n = e.wn /\ e.n2 = e.wn>>,
      <<"sweep-keeps-the-nose-radius", e.nose = 0>> }
MachClauses(e) ==
    { <<"mach-from-speed-of-sound", Within(e.mach, 100)>>, <<"scalar-mach-agrees", Within(e.scal, 100)>>,
      <<"stagnation-temperature", Within(e.temp, 100)>>, <<"stagnation-temperature-at-least-static", e.cold = 0>> }
LawClauses(e) ==
    { <<"convective-heating-follows-the-correlation", Abs(e.con - Law(Convective[e.planet], e.rho, e.v, e.rn)) <= 11>>,
      <<"radiative-heating-follows-the-correlation",
         IF e.planet \in NoRadiation THEN e.none = 1
         ELSE IF e.planet = "EARTH" THEN Abs(e.fv - TauberSutton(e.ms)) <= 20 + (TauberSutton(e.ms) \div 500)
         ELSE e.none = 0 /\ (Abs(e.v - 39031) > 2 \/ e.planet # "VENUS" => Abs(e.rad - Law(RadLaw(e.planet, e.v), e.rho, e.v, e.rn)) <= 22)>> }
UnitClauses(e) == { <<"pressure-in-kilopascal", Within(e.kpa, 10)>>, <<"heat-rate-per-square-centimetre", Within(e.cm2, 10)>> }
Clauses(e, s) == CASE e.ev = "law" -> LawClauses(e) [] e.ev = "unit" -> UnitClauses(e) [] e.ev = "fly" -> FlyClauses(e, s) [] e.ev = "sweep" -> SweepClauses(e) [] e.ev = "mach" -> MachClauses(e) [] e.ev = "set" -> {}
TraceInit == l = 1 /\ viol = <<>> /\ src = "config"
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l]
                  s0 == IF e.first = 1 THEN "config" ELSE src
                  s == IF e.ev = "set" THEN e.source ELSE s0 IN
                /\ viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e, s)))
                /\ src' = s
           /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
=============================================================================

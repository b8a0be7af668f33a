------------------------------ MODULE TraceKit ------------------------------
(* Trace validation kit.  A trace is a sequence of events recorded from the *)
(* real code.  Verdicts are total: every event is consumed, and each event  *)
(* yields the names of the clauses that it breaks.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

NaN == -1100000000          \* what the recorder writes for a value that is not a number
MaxViol == 2000             \* verdicts kept in all ...
MaxEach == 40               \* ... and of each clause, so that no clause hides another

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SeqToSet(s) == { s[i] : i \in 1..Len(s) }

\* a residual is a nonnegative integer; -1 stands for "not a number"
Within(r, tol) == 0 <= r /\ r <= tol

\* cs: a set of <<clause name, BOOLEAN>>
Failing(cs) == { c[1] : c \in { x \in cs : ~x[2] } }

RECURSIVE SetToSeqK(_)
SetToSeqK(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqK(S \ {x})

Rare(viol, name) == Cardinality({ i \in 1..Len(viol) : viol[i].clause = name }) < MaxEach
Record(viol, line, names) ==
    IF Len(viol) >= MaxViol \/ names = {} THEN viol
    ELSE LET new == SetToSeqK({ x \in names : Rare(viol, x) })
         IN viol \o [ i \in 1..Len(new) |-> [line |-> line, clause |-> new[i]] ]

Verdict(viol) == JsonSerialize(IOEnv.OUT_FILE, [n |-> Len(Trace), viol |-> viol])

\* body : a planet against its real counterpart (1e-4 relative; pole in 1e-3 degrees)
BodyClauses(e) ==
    { <<"planet-has-its-real-size", Within(e.rp, 100)>>, <<"planet-has-its-real-mass", Within(e.gm, 100)>>,
      <<"planet-turns-as-the-real-one", Within(e.spin, 100)>>, <<"planet-has-its-real-oblateness", Within(e.j2, 1000)>>,
      <<"planet-has-its-real-pole", Within(e.pole, 500)>> }

\* air : the air and flight window that a planet comes with (1e-4 relative); the surface density is coarse
AirClauses(e) ==
    { <<"gas-of-the-planet", Within(e.gas, 300)>>, <<"surface-density-of-the-planet", Within(e.surface, 4000) /\ Within(e.table, 8000)>>,
      <<"top-of-the-atmosphere", Within(e.top, 100)>> }
WindowClauses(e) == { <<"skip-out-at-the-top-of-the-atmosphere", Within(e.skip, 100)>>, <<"trap-in-altitude", Within(e.trap, 100)>> }

\* events that no specification allows: the code raised or did not come back
IsFault(e) == e.ev \in {"raise", "hang"}
FaultClause(e) == IF e.ev = "hang" THEN "returns-a-result" ELSE "no-exception"
=============================================================================

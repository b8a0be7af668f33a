-------------------------------- MODULE Link --------------------------------
(* A communication link.  Decibels are integers, so that the ledger is exact.  *)
(* A schedule is a list of windows, ends included; a pass is a sequence of      *)
(* times, each in sight or not.  Data flows between two times at half the rate  *)
(* for each of the two at which it can be sent: volume is counted in halves.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ends, MaxWindows, Times, Rate
Windows == Ends \X Ends
\* ------------------------------------------------------------------- ledger
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Available(gains, losses) == Sum(gains) - Sum(losses)
Margin(gains, losses, required) == Available(gains, losses) - required
\* ----------------------------------------------------------------- schedule
Inside(w, t) == w[1] <= t /\ t <= w[2]
On(ws, t) == \E k \in 1..Len(ws) : Inside(ws[k], t)
\* as the code does it: stop at the first window that holds the time
RECURSIVE Scan(_, _)
Scan(ws, t) == IF ws = <<>> THEN FALSE ELSE IF Inside(Head(ws), t) THEN TRUE ELSE Scan(Tail(ws), t)
\* ------------------------------------------------------------------- volume
RECURSIVE Volume(_, _)
Volume(flow, k) == IF k <= 1 THEN 0 ELSE Volume(flow, k - 1) + (Rate * (flow[k] + flow[k - 1]))
VARIABLES ws, t, flow, vol
vars == <<ws, t, flow, vol>>
WindowLists == UNION { [1..k -> Windows] : k \in 0..MaxWindows }
Init == ws \in WindowLists /\ t = 0 /\ flow = <<>> /\ vol = <<>>
Step == /\ t < Times /\ t' = t + 1 /\ UNCHANGED ws
        /\ \E see \in {0, 1} : LET f == IF see = 1 /\ On(ws, t) THEN 1 ELSE 0 IN
              /\ flow' = Append(flow, f)
              /\ vol' = Append(vol, IF flow = <<>> THEN 0 ELSE vol[Len(vol)] + (Rate * (f + flow[Len(flow)])))
Spec == Init /\ [][Step]_vars
ScanIsUnion == \A u \in 0..Times : Scan(ws, u) <=> On(ws, u)
OrderDoesNotMatter == \A u \in 0..Times : On(ws, u) <=> On([k \in 1..Len(ws) |-> ws[Len(ws) + 1 - k]], u)
TouchingWindowsJoin == \A j, k \in 1..Len(ws) : (ws[j][1] <= ws[j][2] /\ ws[j][2] = ws[k][1] /\ ws[k][1] <= ws[k][2]) =>
                          \A u \in 0..Times : (ws[j][1] <= u /\ u <= ws[k][2]) => On(ws, u)
BackwardsIsNever == (\A k \in 1..Len(ws) : ws[k][1] > ws[k][2]) => \A u \in 0..Times : ~On(ws, u)
StartsAtZero == vol = <<>> \/ vol[1] = 0
NeverFalls == \A k \in 2..Len(vol) : vol[k] >= vol[k - 1]
NothingUnscheduled == \A k \in 2..Len(vol) : (~On(ws, k - 1) /\ ~On(ws, k - 2)) => vol[k] = vol[k - 1]
FullRate == \A k \in 2..Len(vol) : vol[k] - vol[k - 1] <= 2 * Rate /\ ((flow[k] = 1 /\ flow[k - 1] = 1) => vol[k] - vol[k - 1] = 2 * Rate)
AsSummed == vol = <<>> \/ vol[Len(vol)] = Volume(flow, Len(flow))
Balance == \A g \in {<<20, 35, 74>>, <<0, 0, 0>>}, x \in {<<1, 3, 290>>, <<>>} : Margin(g, x, 2) + 2 = Available(g, x) /\ Available(g, Append(x, 5)) = Available(g, x) - 5
=============================================================================

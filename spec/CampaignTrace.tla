---------------------------- MODULE CampaignTrace ----------------------------
(* Campaigns of the real code, judged by what they leave on disk: C09.          *)
(*  begin  : number of runs asked for                                           *)
(*  run    : one per run folder found: the files it holds, complete or not, and *)
(*           residuals (1e-9) of each record against an independent flight of   *)
(*           the sample that the record states; entries of each summary for it  *)
(*  end    : crash = where the campaign was cut off: "none", "record", "summary",*)
(*           "start"; at = run it was cut off in                                *)
(*  folder : a campaign started on a folder that exists                         *)
(*  write  : a file operation of the campaign                                   *)
(*  draws  : everything one long campaign has sampled: deviations from the      *)
(*           nominal value in hundredths of the configured standard deviation,  *)
(*           cell = which profile of which file; repeat = samples that another  *)
(*           campaign has drawn once more.  All bounds are six standard         *)
(*           errors of the statistic for independent normal (even) draws.       *)
EXTENDS TraceKit
VARIABLES l, viol, ran
tvars == <<l, viol, ran>>
CONSTANTS NRecords

\* a run that must be complete: the campaign has gone on to a later run, or ended
Must(e) == e.crash = "none" \/ e.run < e.at
RunClauses(e) ==
    { <<"record-is-true", \A i \in 1..Len(e.rec) : Within(e.rec[i], 1000)>>,
      <<"record-complete", Must(e) => e.nrec = NRecords>>,
      <<"sample-in-range", e.range = 1>>,
      <<"summary-covers-every-finished-run", Must(e) => e.nsum = e.want /\ \A i \in 1..Len(e.sum) : Within(e.sum[i], 1000)>>,
      <<"summary-entry-true-or-empty", \A i \in 1..Len(e.sum) : Within(e.sum[i], 1000) \/ (~Must(e) /\ e.empty[i] = 1)>> }
EndClauses(e) ==
    { <<"one-folder-per-run", e.crash = "none" => e.found = e.asked>>,
      <<"no-folder-for-a-run-not-made", e.found <= e.asked /\ e.dense = 1>>,
      <<"summaries-have-one-entry-per-run", e.crash = "none" => \A i \in 1..Len(e.lens) : e.lens[i] = e.asked>>,
      <<"a-written-record-is-never-touched-again", e.rewritten = 0>>,
      <<"nothing-is-deleted", e.deleted = 0>>,
      <<"interrupted-campaign-stops", e.swallowed = 0>>,
      <<"every-sample-is-drawn", e.same = 0>> }
FolderClauses(e) ==
    { <<"existing-folder-is-refused", e.refused = 1>>, <<"existing-folder-is-left-as-it-was", e.changed = 0>> }
\* n and the running sum of f over a sequence; numbers stay below 2^31 up to 2000 draws
RECURSIVE SumUpTo(_, _)
SumUpTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumUpTo(f, k - 1)
SumOf(f) == SumUpTo(f, Len(f))
Root(n) == CHOOSE k \in 0..2000 : k * k <= n /\ n < (k + 1) * (k + 1)
Near(x, m, sd, n) == Abs(x - m) * Root(n) <= 6 * sd
Mean(f) == SumOf(f) \div Len(f)
Times(f, g) == [i \in 1..Len(f) |-> f[i] * g[i]]
Lag(f) == [i \in 1..Len(f) - 1 |-> f[i] * f[i + 1]]
Share(f, a) == (1000 * Cardinality({i \in 1..Len(f) : Abs(f[i]) < a})) \div Len(f)
Normal(f, n) == /\ Near(Mean(f), 0, 100, n)
                /\ Near(Mean(Times(f, f)), 10000, 14142, n)
                /\ Near(Share(f, 100), 683, 466, n) /\ Near(Share(f, 200), 954, 209, n)
Fresh(f, n) == Near(Mean(Lag(f)), 0, 10000, n)
DrawClauses(e) ==
    LET n == e.n
        K == e.files * e.profiles
        Count(k) == Cardinality({i \in 1..n : e.cell[i] = k})
        Hit(k) == Cardinality({i \in 1..n - 1 : e.cell[i] = e.cell[i + 1]}) IN
    { <<"every-run-has-its-sample", Len(e.efpa) = n /\ Len(e.sigma) = n /\ Len(e.ld) \in {0, n} /\ Len(e.cell) = n /\ \A i \in 1..n : e.cell[i] \in 1..K>>,
      <<"entry-angle-drawn-as-configured", Normal(e.efpa, n)>>,
      <<"dispersion-drawn-as-configured", Normal(e.sigma, n)>>,
      <<"lift-to-drag-drawn-as-configured", Len(e.ld) = n => Normal(e.ld, n)>>,
      <<"profiles-drawn-evenly", \A k \in 1..K : Abs(Count(k) * K - n) <= 6 * (Root(n * (K - 1)) + 1)>>,
      <<"each-campaign-draws-afresh", e.repeat = 0>>,
      <<"each-run-draws-afresh", Fresh(e.efpa, n) /\ Fresh(e.sigma, n) /\ (Len(e.ld) = n => Fresh(e.ld, n)) /\ Abs(Hit(1) * K - n) <= 6 * (Root(n * (K - 1)) + 1)>>,
      <<"quantities-drawn-independently", /\ Near(Mean(Times(e.efpa, e.sigma)), 0, 10000, n)
                                          /\ Len(e.ld) = n => Near(Mean(Times(e.efpa, e.ld)), 0, 10000, n) /\ Near(Mean(Times(e.sigma, e.ld)), 0, 10000, n)>> }
Clauses(e) == CASE e.ev = "draws" -> DrawClauses(e) [] e.ev = "run" -> RunClauses(e) [] e.ev = "end" -> EndClauses(e) [] e.ev = "folder" -> FolderClauses(e)
TraceInit == l = 1 /\ viol = <<>> /\ ran = 0
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
                viol' = Record(viol, l, IF IsFault(e) THEN {FaultClause(e)} ELSE Failing(Clauses(e)))
           /\ l' = l + 1 /\ ran' = ran
Done == l = Len(Trace) + 1 /\ Verdict(viol) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][Consume \/ Done]_tvars
==============================================================================

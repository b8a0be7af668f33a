------------------------------ MODULE Campaign ------------------------------
(* A Monte Carlo campaign writing to a folder.  Each run draws a sample, flies *)
(* it from the reference state, writes its record files and then rewrites the  *)
(* summaries.  The process may be interrupted before any file operation; a     *)
(* later campaign may be started on the same or another folder.                *)
(* A file is identified by <<folder, run, name>> (run 0: summary) and holds    *)
(* what was written: the run's identity and sample, or the vector of results.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Runs, Names, Summaries, Folders, Samples, MaxCampaigns

VARIABLES disk,      \* files written so far: [path -> content]
          dirs,      \* folders that exist
          camp,      \* running campaign: folder, campaign number, or none
          run,       \* run in progress (0: between runs)
          sample,    \* sample of the run in progress
          vehicle,   \* what the vehicle is set to
          todo,      \* files of this run still to be written
          results,   \* results of this campaign, in memory
          ncamp, truth, owner
vars == <<disk, dirs, camp, run, sample, vehicle, todo, results, ncamp, truth, owner>>
None == "none"

\* what a flight gives: a function of sample and the reference state only
Outcome(s) == 10 + s
RunFiles(r) == { <<r, n>> : n \in Names }
SummaryFiles == { <<0, n>> : n \in Summaries }
Init == /\ disk = <<>> /\ dirs = {} /\ camp = None /\ run = 0 /\ sample = 0 /\ vehicle = 0
        /\ todo = {} /\ results = [r \in 1..Runs |-> 0] /\ ncamp = 0
        /\ truth = [f \in Folders |-> [r \in 1..Runs |-> 0]] /\ owner = [f \in Folders |-> 0]
Start(f) == /\ camp = None /\ ncamp < MaxCampaigns /\ ncamp' = ncamp + 1
            /\ IF f \in dirs THEN UNCHANGED <<dirs, camp, run, results, owner>>       \* refused
               ELSE /\ dirs' = dirs \cup {f} /\ camp' = f /\ run' = 0
                    /\ results' = [r \in 1..Runs |-> 0] /\ owner' = [owner EXCEPT ![f] = ncamp + 1]
            /\ UNCHANGED <<disk, sample, vehicle, todo, truth>>
Draw == /\ camp # None /\ todo = {} /\ run < Runs
        /\ \E s \in Samples : /\ sample' = s /\ vehicle' = s
                              /\ results' = [results EXCEPT ![run + 1] = Outcome(s)]
                              /\ truth' = [truth EXCEPT ![camp][run + 1] = s]
        /\ run' = run + 1 /\ todo' = RunFiles(run + 1)
        /\ UNCHANGED <<disk, dirs, camp, ncamp, owner>>
Put(f, content) == disk' = [ p \in (DOMAIN disk) \cup {f} |-> IF p = f THEN content ELSE disk[p] ]
WriteRecord == /\ camp # None /\ \E f \in todo :
                    /\ f[1] > 0
                    /\ Put(<<camp, f[1], f[2]>>, [run |-> f[1], val |-> Outcome(sample)])
                    /\ todo' = IF todo = {f} THEN SummaryFiles ELSE todo \ {f}
               /\ UNCHANGED <<dirs, camp, run, sample, vehicle, results, ncamp, truth, owner>>
WriteSummary == /\ camp # None /\ \E f \in todo :
                    /\ f[1] = 0
                    /\ Put(<<camp, 0, f[2]>>, [run |-> 0, val |-> results])
                    /\ todo' = todo \ {f}
                /\ UNCHANGED <<dirs, camp, run, sample, vehicle, results, ncamp, truth, owner>>
Finish == camp # None /\ run = Runs /\ todo = {} /\ camp' = None /\ UNCHANGED <<disk, dirs, run, sample, vehicle, todo, results, ncamp, truth, owner>>
Interrupt == camp # None /\ camp' = None /\ todo' = {} /\ UNCHANGED <<disk, dirs, run, sample, vehicle, results, ncamp, truth, owner>>
Next == (\E f \in Folders : Start(f)) \/ Draw \/ WriteRecord \/ WriteSummary \/ Finish \/ Interrupt
Spec == Init /\ [][Next]_vars

RecordsBelongToTheirRun == \A p \in DOMAIN disk : p[2] > 0 => disk[p].run = p[2]
RecordsAreTrue == \A p \in DOMAIN disk : p[2] > 0 => disk[p].val = Outcome(truth[p[1]][p[2]])
SummariesAreTrue == \A p \in DOMAIN disk : p[2] = 0 => \A r \in 1..Runs : disk[p].val[r] \in {0, Outcome(truth[p[1]][r])}
\* runs whose record is complete and that are followed by another run
Finished(f) == { r \in 1..Runs : \E q \in DOMAIN disk : q[1] = f /\ q[2] > r }
SummariesCover == \A f \in Folders : \A r \in Finished(f) : \A n \in Summaries :
                     /\ <<f, 0, n>> \in DOMAIN disk
                     /\ disk[<<f, 0, n>>].val[r] = Outcome(truth[f][r])
RecordsComplete == \A f \in Folders : \A r \in Finished(f) : \A n \in Names : <<f, r, n>> \in DOMAIN disk
NothingDisappears == [][ \A p \in DOMAIN disk : p \in DOMAIN disk' /\ (p[2] > 0 => disk'[p] = disk[p]) ]_vars
=============================================================================

------------------------------- MODULE WorkMC -------------------------------
(* Every interleaving of runs, interruptions at every point; the judgement  *)
(* of looks (MayShow, Complete) is checked against the steps themselves.    *)
EXTENDS Work
VARIABLES f1, t1, L, old   \* the last look, and the runs alive since then
mvars == <<fs, tmp, run, f1, t1, L, old>>
LiveNow == {<<run[i].p, run[i].r>> : i \in {j \in Runs : Live(j)}}
MInit == WInit /\ old = (\E f \in Files : fs[f] # Absent) /\ f1 = fs /\ t1 = tmp /\ L = {}
Look == f1' = fs /\ t1' = tmp /\ L' = LiveNow /\ UNCHANGED <<fs, tmp, run, old>>
Step == \/ \E i \in Runs, p \in Progs, r \in Robots \cup {0} : Begin(i, p, r)
        \/ \E i \in Runs : Found(i) \/ Compute(i) \/ Store(i) \/ Close(i) \/ End(i) \/ Kill(i)
        \/ \E i \in Runs, k \in Kinds : Open(i, k)
MNext == Look \/ (Step /\ L' = L \cup {<<run'[i].p, run'[i].r>> : i \in {j \in Runs : run'[j].st \in {"begun", "storing", "stored"}}} /\ UNCHANGED <<f1, t1, old>>)
MSpec == MInit /\ [][MNext]_mvars
Shown == MayShow(f1, t1, fs, tmp, L)
\* a run that ended has its files, until another run of the same program for the same robot begins
Whole == \A i \in Runs : run[i].st = "done" /\ (\A j \in Runs : j # i => run[j].st = "idle" \/ run[j].p # run[i].p \/ run[j].r # run[i].r)
                         => Complete(fs, run[i].p, run[i].r)
\* at the moment of its end always
Ends == [][\A i \in Runs : run[i].st = "stored" /\ run'[i].st = "done" => Complete(fs', run[i].p, run[i].r)]_mvars
Count(s, r) == Cardinality({i \in Runs : run[i].st \in s /\ run[i].r = r})
Temps == \A r \in Robots : Tidy(tmp, r, Count({"dead"}, r), Count({"begun", "storing", "stored"}, r))
\* no step touches a file that is not the own file of the run that makes it, and no file ever goes away
Frame == [][\A f \in Files : fs'[f] # fs[f] => \E i \in Runs : run'[i] # run[i] /\ f \in Own(run[i].p, run[i].r)]_mvars
Stays == [][\A f \in Files : fs[f] # Absent => fs'[f] # Absent]_mvars
Refused == \A i \in Runs : run[i].st = "refused" => run[i].todo = {} /\ Own(run[i].p, run[i].r) = {}
\* torn files are those of runs that are alive or were interrupted, or were there before
TornBy == \A f \in Files : fs[f] = Torn => old \/ \E i \in Runs : run[i].st \in {"stored", "dead"} /\ run[i].now = f[1] /\ run[i].r = f[2]
=============================================================================

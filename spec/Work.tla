-------------------------------- MODULE Work --------------------------------
(* The working directory shared by runs of ikSolver.py ("ik") and fkOnly.py *)
(* ("fk").  A file belongs to a robot and has a kind; a run may write the   *)
(* files of its own robot that its program makes, and nothing else.         *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Robots,          \* robots with a table: 1..n; 0 stands for a name without one
          Runs             \* identities of runs
Progs == {"ik", "fk"}
Outputs(p) == IF p = "ik" THEN {"iktex", "ikpy", "ikcpp"} ELSE {"fktex", "fkpy"}
Kinds == {"kin"} \cup Outputs("ik") \cup Outputs("fk")
Files == Kinds \X Robots
Own(p, r) == IF r \in Robots THEN ({"kin"} \cup Outputs(p)) \X {r} ELSE {}
\* the state of a file: absent, partly written, or with the contents a run alone in an empty directory gives it
Absent == 0
Good == 1
Torn == 2
VARIABLES fs,              \* Files -> state
          tmp,             \* <<run, robot>> of temporary files
          run              \* Runs -> record
vars == <<fs, tmp, run>>
Idle == [st |-> "idle", p |-> "ik", r |-> 0, todo |-> {}, now |-> "none"]
\* files of earlier versions may lie there
WInit == fs \in {[f \in Files |-> IF f[1] = "kin" THEN Absent ELSE x] : x \in {Absent, Torn}} /\ tmp = {} /\ run = [i \in Runs |-> Idle]
Live(i) == run[i].st \in {"begun", "storing", "stored"}
\* one run per program and robot at a time
Begin(i, p, r) == /\ run[i].st = "idle"
                  /\ \A j \in Runs : Live(j) => run[j].p # p \/ run[j].r # r
                  /\ run' = [run EXCEPT ![i] = [st |-> IF r \in Robots THEN "begun" ELSE "refused", p |-> p, r |-> r,
                                                todo |-> IF r \in Robots THEN Outputs(p) ELSE {}, now |-> "none"]]
                  /\ UNCHANGED <<fs, tmp>>
\* stored kinematics appear whole or not at all; they are used when they are there
Found(i) == /\ run[i].st = "begun" /\ fs[<<"kin", run[i].r>>] = Good
            /\ run' = [run EXCEPT ![i].st = "stored"]
            /\ UNCHANGED <<fs, tmp>>
Compute(i) == /\ run[i].st = "begun" /\ fs[<<"kin", run[i].r>>] = Absent
              /\ tmp' = tmp \cup {<<i, run[i].r>>}
              /\ run' = [run EXCEPT ![i].st = "storing"]
              /\ UNCHANGED fs
Store(i) == /\ run[i].st = "storing"
            /\ fs' = [fs EXCEPT ![<<"kin", run[i].r>>] = Good]
            /\ tmp' = tmp \ {<<i, run[i].r>>}
            /\ run' = [run EXCEPT ![i].st = "stored"]
Open(i, k) == /\ run[i].st = "stored" /\ run[i].now = "none" /\ k \in run[i].todo
              /\ fs' = [fs EXCEPT ![<<k, run[i].r>>] = Torn]
              /\ run' = [run EXCEPT ![i].now = k]
              /\ UNCHANGED tmp
Close(i) == /\ Live(i) /\ run[i].now # "none"
            /\ fs' = [fs EXCEPT ![<<run[i].now, run[i].r>>] = Good]
            /\ run' = [run EXCEPT ![i].todo = @ \ {run[i].now}, ![i].now = "none"]
            /\ UNCHANGED tmp
End(i) == /\ run[i].st = "stored" /\ run[i].todo = {} /\ run[i].now = "none"
          /\ run' = [run EXCEPT ![i].st = "done"]
          /\ UNCHANGED <<fs, tmp>>
Kill(i) == /\ Live(i)
           /\ run' = [run EXCEPT ![i].st = "dead"]
           /\ UNCHANGED <<fs, tmp>>

(* What a look at the directory between two events may show: f1 and t1 were *)
(* seen at the last look, L are the runs <<program, robot>> alive since.    *)
MayShow(f1, t1, f2, t2, L) ==
  /\ \A f \in Files : f2[f] # f1[f] => \E x \in L : f \in Own(x[1], x[2])
  /\ \A f \in Files : f[1] = "kin" => f2[f] \in {Absent, Good} /\ (f1[f] = Good => f2[f] = Good)
  /\ \A f \in Files : f1[f] # Absent => f2[f] # Absent
  /\ \A y \in (t2 \ t1) \cup (t1 \ t2) : \E x \in L : x[2] = y[2]
\* what must be there when a run of p for r ends
Complete(f2, p, r) == \A f \in Own(p, r) : f2[f] = Good
\* temporary files of r: at most one per interrupted run and one per other run at work
Tidy(t2, r, dead, others) == Cardinality({y \in t2 : y[2] = r}) <= dead + others
=============================================================================

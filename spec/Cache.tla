-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The store of computed kinematics.  For every robot name the store holds *)
(* nothing or the results for one mechanism table.  A run is asked to work *)
(* on a table under a name: it looks; if it finds results it works with    *)
(* these provided that they belong to its table, and refuses otherwise; if *)
(* it finds none it computes and stores them.  It may be interrupted at    *)
(* any time, and several runs may be under way.                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Names, Tables, Runs       \* tables are positive numbers
VARIABLES store, run
vars == <<store, run>>
Idle == [st |-> "idle", name |-> 0, t |-> 0, model |-> 0]
TypeOK == /\ store \in [Names -> Tables \cup {0}]
          /\ \A r \in Runs : run[r].st \in {"idle", "begun", "found", "computing", "stored", "works", "refused", "dead"}
Init == store = [n \in Names |-> 0] /\ run = [r \in Runs |-> Idle]
Begin(r, n, t) == /\ run[r].st = "idle"
                  /\ run' = [run EXCEPT ![r] = [st |-> "begun", name |-> n, t |-> t, model |-> 0]]
                  /\ UNCHANGED store
Look(r) == /\ run[r].st = "begun"
           /\ LET s == store[run[r].name]
              IN run' = [run EXCEPT ![r].st = IF s = 0 THEN "computing" ELSE "found", ![r].model = IF s = 0 THEN run[r].t ELSE s]
           /\ UNCHANGED store
Store(r) == /\ run[r].st = "computing"
            /\ store' = [store EXCEPT ![run[r].name] = run[r].t]
            /\ run' = [run EXCEPT ![r].st = "stored"]
Verdict(r) == IF run[r].model = run[r].t THEN "works" ELSE "refused"
Finish(r) == /\ run[r].st \in {"found", "stored"}
             /\ run' = [run EXCEPT ![r].st = Verdict(r)]
             /\ UNCHANGED store
Crash(r) == /\ run[r].st \in {"begun", "found", "computing", "stored"}
            /\ run' = [run EXCEPT ![r].st = "dead"]
            /\ UNCHANGED store
Next == \E r \in Runs : (\E n \in Names, t \in Tables : Begin(r, n, t)) \/ Look(r) \/ Store(r) \/ Finish(r) \/ Crash(r)
Spec == Init /\ [][Next]_vars

\* whoever works, works with the results of its own table
Right == \A r \in Runs : run[r].st = "works" => run[r].model = run[r].t
\* a refusal has a reason: there are results for another table
Reason == \A r \in Runs : run[r].st = "refused" => run[r].model # run[r].t /\ run[r].model # 0
\* results are never lost, and are those of some run under that name
Kept == [][\A n \in Names : store[n] # 0 => store'[n] # 0]_vars
Owned == \A n \in Names : store[n] # 0 => \E r \in Runs : run[r].name = n /\ run[r].t = store[n]
=============================================================================

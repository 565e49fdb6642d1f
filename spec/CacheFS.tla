------------------------------- MODULE CacheFS -------------------------------
(***************************************************************************)
(* How the store is kept in files: results are written in chunks to a file *)
(* of the run's own, which then replaces the file of that name.  Refines   *)
(* Cache.  InPlace = TRUE is the design that writes to the file itself.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Names, Tables, Runs, Chunks, InPlace
VARIABLES file, tmp, run
vars == <<file, tmp, run>>
None == [t |-> 0, n |-> 0]
Idle == [st |-> "idle", name |-> 0, t |-> 0, model |-> 0]
Init == file = [n \in Names |-> None] /\ tmp = [r \in Runs |-> None] /\ run = [r \in Runs |-> Idle]
Begin(r, n, t) == run[r].st = "idle" /\ run' = [run EXCEPT ![r] = [st |-> "begun", name |-> n, t |-> t, model |-> 0]] /\ UNCHANGED <<file, tmp>>
Look(r) ==
  /\ run[r].st = "begun"
  /\ LET f == file[run[r].name]
     IN run' = [run EXCEPT ![r].st = IF f.t = 0 THEN "computing" ELSE IF f.n = Chunks THEN "found" ELSE "broken",
                           ![r].model = IF f.t = 0 THEN run[r].t ELSE f.t]
  /\ UNCHANGED <<file, tmp>>
Write(r) ==
  /\ run[r].st = "computing"
  /\ IF InPlace
     THEN /\ file[run[r].name].t # run[r].t \/ file[run[r].name].n < Chunks
          /\ file' = [file EXCEPT ![run[r].name] = [t |-> run[r].t, n |-> IF @.t = run[r].t THEN @.n + 1 ELSE 1]] /\ UNCHANGED tmp
     ELSE /\ tmp[r].n < Chunks
          /\ tmp' = [tmp EXCEPT ![r] = [t |-> run[r].t, n |-> @.n + 1]] /\ UNCHANGED file
  /\ UNCHANGED run
Replace(r) ==
  /\ run[r].st = "computing"
  /\ IF InPlace THEN file[run[r].name] = [t |-> run[r].t, n |-> Chunks] /\ UNCHANGED <<file, tmp>>
     ELSE tmp[r].n = Chunks /\ file' = [file EXCEPT ![run[r].name] = tmp[r]] /\ tmp' = [tmp EXCEPT ![r] = None]
  /\ run' = [run EXCEPT ![r].st = "stored"]
Finish(r) == /\ run[r].st \in {"found", "stored"}
             /\ run' = [run EXCEPT ![r].st = IF run[r].model = run[r].t THEN "works" ELSE "refused"] /\ UNCHANGED <<file, tmp>>
Crash(r) == run[r].st \in {"begun", "found", "computing", "stored"} /\ run' = [run EXCEPT ![r].st = "dead"] /\ UNCHANGED <<file, tmp>>
Next == \E r \in Runs : (\E n \in Names, t \in Tables : Begin(r, n, t)) \/ Look(r) \/ Write(r) \/ Replace(r) \/ Finish(r) \/ Crash(r)
Spec == Init /\ [][Next]_vars
A == INSTANCE Cache WITH store <- [n \in Names |-> file[n].t]
Complete == \A n \in Names : file[n] = None \/ file[n].n = Chunks
NoBroken == \A r \in Runs : run[r].st # "broken"
Refines == A!Spec
Right == A!Right
Reason == A!Reason
Owned == A!Owned
Kept == A!Kept
=============================================================================

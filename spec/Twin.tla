-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Determinism as a property of pairs of runs: a run is a sequence of      *)
(* observations (numbers stand for texts) and a set of files; two runs of  *)
(* the same robot are stepped together and never differ.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC
VARIABLES it, k, bad
Items == JsonDeserialize(IOEnv.TRACE).items          \* one item per robot: [runs]
I == Items[it]
N == Len(I.runs)
Longest == Max({Len(I.runs[r].events) : r \in 1..N} \cup {0})
At(r, j) == IF j \in DOMAIN I.runs[r].events THEN I.runs[r].events[j] ELSE 0
Files(r) == {<<I.runs[r].files[j][1], I.runs[r].files[j][2]>> : j \in DOMAIN I.runs[r].files}
Differ(j) == {r \in 2..N : At(r, j) # At(1, j)}
Init == it = 1 /\ k = 1 /\ bad = <<>>
Step == /\ it <= Len(Items) /\ k <= Longest /\ Differ(k) = {}
        /\ k' = k + 1 /\ UNCHANGED <<it, bad>>
Apart == /\ it <= Len(Items) /\ k <= Longest /\ Differ(k) # {}
         /\ bad' = Append(bad, [it |-> it, k |-> k, clauses |-> <<ToJson([observation |-> k, runs |-> SetToSeq(Differ(k))])>>])
         /\ it' = it + 1 /\ k' = 1
Finish == /\ it <= Len(Items) /\ k > Longest
          /\ LET D == {r \in 2..N : Files(r) # Files(1)}
             IN bad' = IF D = {} THEN bad ELSE Append(bad, [it |-> it, k |-> 0, clauses |-> <<ToJson([files |-> 1, runs |-> SetToSeq(D)])>>])
          /\ it' = it + 1 /\ k' = 1
Next == Step \/ Apart \/ Finish
Spec == Init /\ [][Next]_<<it, k, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================

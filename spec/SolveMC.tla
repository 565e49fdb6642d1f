------------------------------- MODULE SolveMC -------------------------------
(* The search with a free environment: which methods find something, what a *)
(* solution depends on, whether a sum of angles turns up.                   *)
EXTENDS Solve
CONSTANTS N0, NMax
VARIABLES age    \* attempts since an unknown was last offered, while unsolved
mcvars == <<svars, age>>

Init == InitWith(N0) /\ age = [i \in 1..NMax |-> 0]
Env(A) == A /\ UNCHANGED age
St == {OK, NO}
Next ==
  \/ \E st \in St : Env(Substitute(st)) \/ Env(Method(st)) \/ Env(Refresh(st))
  \/ Assign /\ age' = [i \in 1..NMax |-> IF i = cur' \/ i \notin Unsolved THEN 0 ELSE age[i] + 1]
  \/ \E st \in St, k \in 0..1 : n + k <= NMax /\ Env(Sums(st, k))
  \/ \E k \in 1..2, D \in SUBSET Solved : Env(Solve(cur, k, D, 0))
  \/ Env(Test)
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

Distinct   == \A i, j \in Solved : i # j => rec[i].ord # rec[j].ord
Dense      == {rec[i].ord : i \in Solved} = 1..Cardinality(Solved)
WellFounded == \A i \in Solved : \A d \in rec[i].deps : d \in Solved /\ rec[d].ord < rec[i].ord
Bounds     == tries < MaxTry /\ pass <= MaxPass
Truthful   == verdict = 1 <=> (phase = "over" /\ Complete /\ pass < MaxPass)
\* every unknown that stays unsolved is offered again after at most n further attempts
Fair       == \A i \in 1..n : age[i] <= n
Working    == phase \in Methods /\ cur \in Solved => counter \in {0, cur}
Frozen     == [][\A i \in Solved : i \in DOMAIN rec' /\ rec'[i] = rec[i]]_mcvars
Ends       == <>(phase = "over")
=============================================================================

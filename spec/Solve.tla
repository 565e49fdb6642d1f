-------------------------------- MODULE Solve --------------------------------
(***************************************************************************)
(* The search of the inverse-kinematics solver: passes over the equations, *)
(* in each pass up to MaxTry attempts at one unknown each, the order of    *)
(* the methods within an attempt, the refresh of the equations and the     *)
(* completion test.  What the identification and solving methods find is   *)
(* the environment.                                                        *)
(*   pass:     substitute ; attempts until one succeeds ; refresh ;        *)
(*             completion test                                             *)
(*   attempt:  assign ; sums of angles ; algebra, else tangent and         *)
(*             sine-or-cosine (both) then ranking, else simultaneous,      *)
(*             else sine-and-cosine, else squared sums                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt
CONSTANTS MaxTry, MaxPass
VARIABLES n,       \* number of unknowns (sums of angles may be added)
          rec,     \* solved unknowns: index -> [ord, nsol, fp, deps, nver]
          phase,   \* the step that comes next
          tries, pass, counter, cur, any,
          verdict  \* 0 while running, then 1 (all solved) or 2
svars == <<n, rec, phase, tries, pass, counter, cur, any, verdict>>

OK == 1
NO == 2
Solved == DOMAIN rec
Unsolved == (1..n) \ Solved
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

InitWith(k) == /\ n = k /\ rec = [i \in {} |-> 0] /\ phase = "sub" /\ tries = 0 /\ pass = 0
               /\ counter = 0 /\ cur = 0 /\ any = FALSE /\ verdict = 0

Methods == {"alg_id", "alg_solve", "tan_id", "tan_solve", "sc_id", "sc_solve", "rank",
            "sim_id", "sim_solve", "sac_id", "sac_solve", "x2z2"}
Solving == {"alg_solve", "rank", "sim_solve", "sac_solve", "x2z2"}

\* the step after a method step that ended with status st
After(p, st, a) ==
  CASE p = "alg_id"    -> IF st = OK THEN "alg_solve" ELSE "tan_id"
    [] p = "alg_solve" -> IF st = OK THEN "update" ELSE "tan_id"
    [] p = "tan_id"    -> IF st = OK THEN "tan_solve" ELSE "sc_id"
    [] p = "tan_solve" -> "sc_id"
    [] p = "sc_id"     -> IF st = OK THEN "sc_solve" ELSE IF a THEN "rank" ELSE "sim_id"
    [] p = "sc_solve"  -> IF st = OK \/ a THEN "rank" ELSE "sim_id"
    [] p = "rank"      -> IF st = OK THEN "update" ELSE "sim_id"
    [] p = "sim_id"    -> IF st = OK THEN "sim_solve" ELSE "sac_id"
    [] p = "sim_solve" -> IF st = OK THEN "update" ELSE "sac_id"
    [] p = "sac_id"    -> IF st = OK THEN "sac_solve" ELSE "x2z2"
    [] p = "sac_solve" -> IF st = OK THEN "update" ELSE "x2z2"
    [] p = "x2z2"      -> IF st = OK THEN "update" ELSE "failed"

\* a failed attempt, a failed pass
FailPass == /\ pass' = pass + 1 /\ tries' = 0
            /\ IF pass + 1 < MaxPass THEN phase' = "sub" /\ UNCHANGED verdict
               ELSE phase' = "over" /\ verdict' = 2
FailAttempt == IF tries + 1 < MaxTry
               THEN phase' = "assign" /\ tries' = tries + 1 /\ UNCHANGED <<pass, verdict>>
               ELSE FailPass

Substitute(st) ==
  /\ phase = "sub"
  /\ IF st = OK THEN phase' = "assign" /\ tries' = 0 /\ UNCHANGED <<pass, verdict>> ELSE FailPass
  /\ UNCHANGED <<n, rec, counter, cur, any>>

Ahead == {i \in Unsolved : i > counter}
Assign ==
  /\ phase = "assign" /\ n > 0
  /\ IF Ahead # {} THEN cur' = Min(Ahead) /\ counter' = Min(Ahead)
     ELSE cur' = 1 /\ counter' = 0
  /\ phase' = "sums"
  /\ UNCHANGED <<n, rec, tries, pass, any, verdict>>

Sums(st, k) ==
  /\ phase = "sums"
  /\ n' = n + k
  /\ IF st = OK THEN phase' = "alg_id" /\ UNCHANGED <<tries, pass, verdict>> ELSE FailAttempt
  /\ any' = FALSE
  /\ UNCHANGED <<rec, counter, cur>>

Product(ns, D) == FoldSet(LAMBDA d, a : a * ns[d].nsol, 1, D)
\* the unknown attempted gets its solutions; they depend on solved unknowns only
MaySolve(u, D) == phase \in Solving /\ u = cur /\ u \in Unsolved /\ D \subseteq Solved
Solve(u, k, D, f) ==
  /\ MaySolve(u, D) /\ k >= 1
  /\ rec' = Put(rec, u, [ord |-> Cardinality(Solved) + 1, nsol |-> k, fp |-> f, deps |-> D, nver |-> k * Product(rec, D)])
  /\ UNCHANGED <<n, phase, tries, pass, counter, cur, any, verdict>>

Method(st) ==
  /\ phase \in Methods
  /\ LET q == After(phase, st, any) IN
     IF q = "failed" THEN FailAttempt
     ELSE phase' = q /\ UNCHANGED <<tries, pass, verdict>>
  /\ any' = IF phase = "tan_solve" THEN st # NO ELSE any
  /\ UNCHANGED <<n, rec, counter, cur>>

Refresh(st) ==
  /\ phase = "update"
  /\ IF st = OK THEN phase' = "comp" /\ UNCHANGED <<tries, pass, verdict>> ELSE FailPass
  /\ UNCHANGED <<n, rec, counter, cur, any>>

Complete == Unsolved = {}
Test ==
  /\ phase = "comp"
  /\ IF Complete THEN phase' = "over" /\ verdict' = 1 /\ UNCHANGED <<tries, pass>> ELSE FailPass
  /\ UNCHANGED <<n, rec, counter, cur, any>>
=============================================================================

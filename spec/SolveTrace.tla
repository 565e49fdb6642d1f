------------------------------ MODULE SolveTrace ------------------------------
(* Recorded solver runs (and runs of the real search with scripted methods) *)
(* against Solve.  A difference in the data of an unknown is recorded and    *)
(* the recorded value adopted; after a step that the search does not allow   *)
(* the rest of the episode is skipped.                                       *)
EXTENDS Solve, Json, IOUtils, SequencesExt
VARIABLES ep, l, bad, begun
tv == <<svars, ep, l, bad, begun>>
Eps == JsonDeserialize(IOEnv.TRACE).episodes
E  == Eps[ep]
Ev == E.ev[l]

PhaseOf(leaf) ==
  CASE leaf = "sub_transform" -> "sub" [] leaf = "assigner" -> "assign" [] leaf = "sum_id" -> "sums"
    [] leaf = "algebra_id" -> "alg_id" [] leaf = "algebra_solve" -> "alg_solve"
    [] leaf = "tan_id" -> "tan_id" [] leaf = "tan_solve" -> "tan_solve"
    [] leaf = "sincos_id" -> "sc_id" [] leaf = "sincos_solve" -> "sc_solve"
    [] leaf = "rank" -> "rank" [] leaf = "simu_id" -> "sim_id" [] leaf = "simu_solver" -> "sim_solve"
    [] leaf = "sinandcos_id" -> "sac_id" [] leaf = "sinandcos_solve" -> "sac_solve"
    [] leaf = "x2z2_transform" -> "x2z2" [] leaf = "updateL" -> "update" [] leaf = "comp_det" -> "comp"
    [] OTHER -> "?"

Q(x) == {x[i] : i \in DOMAIN x}
\* the unknowns as recorded after the event: <<solved, order, nsolutions, fingerprint>>
USolved == {i \in DOMAIN Ev.u : Ev.u[i][1] = 1}
DataBad == \/ USolved # Solved
           \/ \E i \in Solved \cap DOMAIN Ev.u : Ev.u[i][2] # rec[i].ord \/ Ev.u[i][3] # rec[i].nsol \/ Ev.u[i][4] # rec[i].fp
Note(c) == Append(bad, [ep |-> ep, l |-> l, clause |-> c])

Reset(k) == /\ n' = k /\ rec' = [i \in {} |-> 0] /\ phase' = "sub" /\ tries' = 0 /\ pass' = 0
            /\ counter' = 0 /\ cur' = 0 /\ any' = FALSE /\ verdict' = 0
Leave == ep' = ep + 1 /\ l' = 1 /\ begun' = FALSE /\ Reset(0)
\* the result of the run, judged by the last recorded state alone
SolvedIn(u) == {i \in DOMAIN u : u[i][1] = 1}
Final(W) == LET F == E.ev[Len(E.ev)] W0 == SolvedIn(F.u) IN
  IF Len(E.ev) = 0 \/ F.e # "end" THEN "S10: the search did not end"
  ELSE IF (F.st = 1) # (W0 = DOMAIN F.u) \/ F.st \notin {1, 2} THEN "S10: result of the search"
  ELSE IF W # W0 THEN "S10: state after the search"
  ELSE IF E.done # 1 THEN "S10: the run did not end normally"
  ELSE IF E.nothing # (IF W = {} THEN 1 ELSE 0) THEN "S10: report of a run without solution"
  ELSE IF Q(E.reported) # W THEN "S10: unknowns reported as solved"
  ELSE ""
Notes(b, c) == IF c = "" THEN b ELSE Append(b, [ep |-> ep, l |-> l, clause |-> c])
Skip(c) == Leave /\ bad' = Notes(Note(c), IF Len(E.ev) = 0 THEN "S10: the search did not end" ELSE Final(SolvedIn(E.ev[Len(E.ev)].u)))
Step == l' = l + 1 /\ UNCHANGED <<ep, begun>>

Begin == /\ Ev.e = "begin" /\ ~begun
         /\ begun' = TRUE /\ ep' = ep /\ l' = l + 1 /\ UNCHANGED bad
         /\ Reset(Len(Ev.u))

\* what is wrong with a recorded solving step
SolvedClause ==
  LET D == Q(Ev.ment) IN
  IF Ev.was \/ Ev.who \in Solved THEN "solved again"
  ELSE IF Ev.len < 1 \/ Ev.nsol # Ev.len THEN "number of solutions"
  ELSE IF Ev.who \in D THEN "solution mentions its own unknown"
  ELSE IF ~(D \subseteq Solved) THEN "solution mentions an unsolved unknown"
  ELSE IF Ev.other > 0 THEN "solution mentions an undeclared symbol"
  ELSE IF Q(Ev.deps) # D \/ Ev.foreign > 0 THEN "dependencies"
  ELSE IF Ev.order # Cardinality(Solved) + 1 THEN "position in the solving order"
  ELSE IF Ev.nver # Ev.len * Product(rec, D) THEN "number of versions"
  ELSE ""
OnSolved ==
  /\ Ev.e = "solved"
  /\ IF ~(phase \in Solving) \/ (Ev.who # cur) THEN Skip("S09: an unknown solved out of turn")
     ELSE /\ LET c == SolvedClause IN
             /\ bad' = IF c = "" THEN bad ELSE Note("S03: " \o c)
             /\ rec' = Put(rec, Ev.who, [ord |-> Ev.order, nsol |-> Ev.nsol, fp |-> Ev.u[Ev.who][4], deps |-> Q(Ev.ment), nver |-> Ev.nver])
          /\ UNCHANGED <<n, phase, tries, pass, counter, cur, any, verdict>>
          /\ Step

Act == LET st == Ev.st p == PhaseOf(Ev.leaf) IN
  CASE p = "sub" -> Substitute(st) [] p = "assign" -> Assign [] p = "sums" -> Sums(st, Len(Ev.u) - n)
    [] p = "update" -> Refresh(st) [] p = "comp" -> Test [] OTHER -> Method(st)
OnLeaf ==
  /\ Ev.e = "leaf"
  /\ LET p == PhaseOf(Ev.leaf) IN
     IF p # phase THEN Skip("S09: " \o Ev.leaf \o " instead of " \o phase)
     ELSE IF Ev.st \notin {1, 2} THEN Skip("S09: status of " \o Ev.leaf)
     ELSE IF p # "sums" /\ Len(Ev.u) # n THEN Skip("S11: unknowns added by " \o Ev.leaf)
     ELSE IF p = "comp" /\ (Ev.st = 1) # Complete THEN Skip("S10: completion test")
     ELSE IF p = "assign" /\ (LET c == IF Ahead # {} THEN Min(Ahead) ELSE 1 IN Ev.cur # c) THEN Skip("S09: unknown attempted")
     ELSE IF p \notin {"sub", "assign"} /\ Ev.cur # cur THEN Skip("S09: unknown changed during an attempt")
     ELSE IF DataBad THEN Skip("S03: a solved unknown changed, or one became solved without being solved")
     ELSE Act /\ UNCHANGED bad /\ Step
OnEnd ==
  /\ Ev.e = "end"
  /\ LET c == IF phase # "over" THEN "S09: the search ended at " \o phase
              ELSE IF DataBad THEN "S03: a solved unknown changed"
              ELSE IF Ev.st # verdict THEN "S10: result of the search" ELSE ""
     IN bad' = Notes(Notes(bad, c), Final(SolvedIn(Ev.u)))
  /\ Leave

Init == ep = 1 /\ l = 1 /\ bad = <<>> /\ begun = FALSE /\ InitWith(0)
NoEnd == /\ l > Len(E.ev) /\ Skip("S10: the run did not end")
Next == /\ ep <= Len(Eps)
        /\ IF l > Len(E.ev) THEN NoEnd
           ELSE IF ~begun THEN (IF Ev.e = "begin" THEN Begin ELSE Skip("S09: no beginning"))
           ELSE CASE Ev.e = "solved" -> OnSolved
                  [] Ev.e = "leaf" -> OnLeaf
                  [] Ev.e = "end" -> OnEnd
                  [] OTHER -> Skip("S09: event")
Spec == Init /\ [][Next]_tv
Report == ep > Len(Eps) => PrintT(<<"VERDICT", ToJson([episodes |-> Len(Eps), bad |-> bad])>>)
=============================================================================

------------------------------ MODULE EngineTrace -------------------------------
(* Validates recorded executions of the real engine against BT.  The input  *)
(* is a list of episodes; an episode is a forest plus the recorded events.   *)
(* Every event must be the one the model allows next (leaf statuses and the  *)
(* time they take are the recorded environment choices); at the end of every *)
(* tree tick the observable state is compared with the model's.  The verdict *)
(* is total: a mismatch is recorded with the clause it breaks and validation *)
(* continues with the next episode.                                          *)
EXTENDS BT, Json, IOUtils
VARIABLES ep, l, bad
tvars == <<bvars, ep, l, bad>>

Data == JsonDeserialize(IOEnv.TRACE)
Eps  == Data.episodes
E    == Eps[ep]
Ev   == E.ev[l]
Has  == ep <= Len(Eps) /\ l <= Len(E.ev)

ChSeq(x) == [i \in 1..Len(x) |-> x[i]]
NodesOf(e) == [i \in 1..Len(e.nodes) |-> [kind |-> e.nodes[i].kind, ch |-> ChSeq(e.nodes[i].ch),
                                          max |-> e.nodes[i].max, cost |-> e.nodes[i].cost]]

Init == /\ ep = 1 /\ l = 1 /\ bad = <<>>
        /\ InitWith(NodesOf(Eps[1]), ChSeq(Eps[1].roots), Eps[1].nb)

SetTo(ns, rs, nb) ==
  LET N == 1..Len(ns) T == 1..Len(rs) B == 1..nb IN
  /\ nodes' = ns /\ roots' = rs
  /\ cur' = [b |-> 0, t |-> 0] /\ stack' = <<>>
  /\ isOpen' = [b \in B |-> [n \in N |-> FALSE]]
  /\ mem' = [b \in B |-> [n \in N |-> -1]]
  /\ opened' = <<>> /\ ncount' = 0
  /\ openNodes' = [b \in B |-> [t \in T |-> <<>>]]
  /\ nodeCount' = [b \in B |-> [t \in T |-> 0]]
  /\ total' = [b \in B |-> 0]
  /\ nticks' = [n \in N |-> 0] /\ nsucc' = [n \in N |-> 0]
  /\ cost' = [n \in N |-> ns[n].cost]
  /\ tcount' = [t \in T |-> 0]
  /\ log' = <<>> /\ clock' = 0

NextEpisode ==
  /\ ep' = ep + 1 /\ l' = 1
  /\ IF ep + 1 <= Len(Eps)
     THEN SetTo(NodesOf(Eps[ep+1]), ChSeq(Eps[ep+1].roots), Eps[ep+1].nb)
     ELSE UNCHANGED bvars

\* which property does a divergence of the next event break?
Class(n) == IF Kind(n) \in Composite THEN "composite"
            ELSE IF Kind(n) \in Decorator \cup {"wait"} THEN "decorator" ELSE "composite"
Blame == LET x == NextEvent IN
  CASE x.e = "idle" -> "lifecycle"
    [] x.e = "done" -> "lifecycle"
    [] x.e = "enter" /\ stack # <<>> /\ Ev.e # "raise" /\ ~(Ev.e \in {"ret", "enter"}) -> "lifecycle"
    [] x.e = "enter" /\ stack # <<>> -> Class(Top.n)
    [] x.e = "enter" -> "lifecycle"
    [] x.e = "ret" /\ Ev.e \in {"ret", "enter", "raise"} -> Class(x.n)
    [] OTHER -> "lifecycle"

\* the observable state at the end of a tree tick
RECURSIVE LogFor(_, _)
LogFor(lg, flag) == IF lg = <<>> THEN <<>> ELSE
   LET h == Head(lg) r == LogFor(Tail(lg), flag) IN
   IF (h[1] = SUCCESS /\ flag > 0) \/ (h[1] = FAILURE /\ flag > 1) THEN <<h>> \o r ELSE r

ObsClause ==
  LET o == Ev.obs  b == cur.b  t == cur.t  N == 1..Len(nodes) IN
  IF Ev.s # Ev.rootret THEN "lifecycle"
  ELSE IF ChSeq(o.open_nodes) # openNodes[b][t] THEN "lifecycle"
  ELSE IF o.node_count # nodeCount[b][t] THEN "lifecycle"
  ELSE IF \E bb \in DOMAIN total, n \in N : o.is_open[bb][n] # (IF isOpen[bb][n] THEN 1 ELSE 0) THEN "lifecycle"
  ELSE IF \E bb \in DOMAIN total : o.total[bb] # total[bb] THEN "accounting"
  ELSE IF \E n \in N : o.nticks[n] # nticks[n] \/ o.nsucc[n] # nsucc[n] \/ o.cost[n] # cost[n] THEN "accounting"
  ELSE IF \E x \in DOMAIN roots : o.tcount[x] # tcount[x] THEN "accounting"
  ELSE IF [i \in 1..Len(o.log) |-> <<o.log[i][1], o.log[i][2]>>] # LogFor(log, E.logflag) THEN "accounting"
  ELSE "ok"

Fail(c) == /\ bad' = Append(bad, [ep |-> ep, l |-> l, clause |-> c, expected |-> NextEvent, got |-> Ev.e])
           /\ NextEpisode

Matches ==
  CASE Ev.e = "start" -> Idle
    [] Ev.e = "enter" -> MayEnter(Ev.n)
    [] Ev.e = "open"  -> MayOpen(Ev.n)
    [] Ev.e = "tick"  -> MayTick(Ev.n)
    [] Ev.e = "ret"   -> MayReturn(Ev.n, Ev.s)
    [] Ev.e = "close" -> MayClose(Ev.n)
    [] Ev.e = "exit"  -> MayExit(Ev.n)
    [] Ev.e = "done"  -> NextEvent.e = "done"
    [] OTHER -> FALSE

Step ==
  CASE Ev.e = "start" -> StartTick(Ev.b, Ev.t)
    [] Ev.e = "enter" -> Enter(Ev.n)
    [] Ev.e = "open"  -> Open(Ev.n)
    [] Ev.e = "tick"  -> Tick(Ev.n)
    [] Ev.e = "ret"   -> Return(Ev.n, Ev.s, Ev.dt)
    [] Ev.e = "close" -> Close(Ev.n)
    [] Ev.e = "exit"  -> Exit(Ev.n)
    [] Ev.e = "done"  -> EndTick

Next ==
  \/ /\ Has
     /\ IF ~Matches THEN Fail(Blame)
        ELSE IF Ev.e = "done" /\ ObsClause # "ok" THEN Fail(ObsClause)
        ELSE Step /\ l' = l + 1 /\ UNCHANGED <<ep, bad>>
  \/ /\ ep <= Len(Eps) /\ l > Len(E.ev)
     /\ NextEpisode /\ UNCHANGED bad

Spec == Init /\ [][Next]_tvars
Done == ep > Len(Eps)
\* printed once, by the last state
Report == Done => PrintT(<<"VERDICT", ToJson([episodes |-> Len(Eps), bad |-> bad])>>)
View == <<ep, l>>
=============================================================================

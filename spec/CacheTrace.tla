----------------------------- MODULE CacheTrace -----------------------------
(* Recorded histories of runs on a real directory against Cache.  Events:   *)
(* begin (run, name, table), crash (run), end (run, outcome, model): outcome*)
(* 1 works, 2 refused, 0 anything else; model: the table whose fresh results*)
(* equal those the run works with (0: none).  What a run does in between is *)
(* not observed; the states that agree with the history are followed.       *)
EXTENDS Cache, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
H == Items[it].events
Hidden(s) ==                                         \* states reachable by hidden steps, s = [store, run]
  LET One(x) == UNION {
        (IF x.run[r].st = "begun" THEN
           LET f == x.store[x.run[r].name]
           IN {[x EXCEPT !.run[r].st = IF f = 0 THEN "computing" ELSE "found", !.run[r].model = IF f = 0 THEN x.run[r].t ELSE f]}
         ELSE IF x.run[r].st = "computing" THEN {[x EXCEPT !.store[x.run[r].name] = x.run[r].t, !.run[r].st = "stored"]}
         ELSE {}) : r \in Runs}
      f0 == {s}
      f1 == f0 \cup UNION {One(x) : x \in f0}
      f2 == f1 \cup UNION {One(x) : x \in f1}
      f3 == f2 \cup UNION {One(x) : x \in f2}
      f4 == f3 \cup UNION {One(x) : x \in f3}
  IN f4
Apply(x, e) ==
  CASE e.e = "begin" -> IF x.run[e.run].st \in {"idle", "works", "refused", "dead"}
                        THEN {[x EXCEPT !.run[e.run] = [st |-> "begun", name |-> e.name, t |-> e.t, model |-> 0]]} ELSE {}
    [] e.e = "crash" -> IF x.run[e.run].st \in {"begun", "found", "computing", "stored"} THEN {[x EXCEPT !.run[e.run].st = "dead"]} ELSE {}
    [] e.e = "end"   -> IF /\ x.run[e.run].st \in {"found", "stored"}
                           /\ \/ e.outcome = 1 /\ x.run[e.run].model = x.run[e.run].t /\ e.model = x.run[e.run].t
                              \/ e.outcome = 2 /\ x.run[e.run].model # x.run[e.run].t
                        THEN {[x EXCEPT !.run[e.run].st = IF e.outcome = 1 THEN "works" ELSE "refused"]} ELSE {}
    [] OTHER -> {}
S0 == {[store |-> [n \in Names |-> 0], run |-> [r \in Runs |-> Idle]]}
Step(S, e) == UNION {Apply(y, e) : y \in UNION {Hidden(x) : x \in S}}
\* index of the first event no state agrees with, 0 if there is none
First(h) == FoldLeft(LAMBDA a, e : IF a.bad # 0 THEN a
                                   ELSE LET S == Step(a.S, e) IN [S |-> S, k |-> a.k + 1, bad |-> IF S = {} THEN a.k + 1 ELSE 0],
                     [S |-> S0, k |-> 0, bad |-> 0], h).bad
TInit == it = 1 /\ bad = <<>> /\ store = 0 /\ run = 0
TNext == /\ it <= Len(Items) /\ it' = it + 1 /\ UNCHANGED <<store, run>>
         /\ LET b == First(H) IN bad' = IF b = 0 THEN bad ELSE Append(bad, [it |-> it, k |-> b, clauses |-> <<ToJson(H[b])>>])
TSpec == TInit /\ [][TNext]_<<it, bad, store, run>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================

------------------------------ MODULE WorkTrace -----------------------------
(* Recorded histories of runs in a real directory against Work.  Events:    *)
(* begin (run, p, r), end (run, how), each followed by a look at the        *)
(* directory: files[k][r] = number of the contents (0: absent, dates left   *)
(* out), other = files that are none of Files: <<name, robot whose storing  *)
(* it belongs to or 0, contents>>.  good[k][r]: contents after a run alone. *)
(* how: "done", "refused" (ended early without an error), "dead" (killed),  *)
(* "error".                                                                 *)
EXTENDS Work, SequencesExt, Json, IOUtils
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
KindOrder == <<"kin", "iktex", "ikpy", "ikcpp", "fktex", "fkpy">>
State(h, e) == [f \in Files |-> LET k == CHOOSE j \in 1..6 : KindOrder[j] = f[1]
                                    x == e.files[k][f[2]]
                                IN IF x = 0 THEN Absent ELSE IF x = h.good[k][f[2]] THEN Good ELSE Torn]
Ids(e, f) == e.files[CHOOSE j \in 1..6 : KindOrder[j] = f[1]][f[2]]
Tmps(e) == {<<y[1], y[2]>> : y \in {z \in Range(e.other) : z[2] # 0}}
\* clauses the look of event k breaks; s = [live: run -> <<p, r>>, fs, t, e]
Broken(h, s, e) ==
  LET f2 == State(h, e)  t2 == Tmps(e)
      me == IF e.e = "begin" THEN <<e.p, e.r>> ELSE s.live[e.run]
      L == Range(s.live) \cup {me}
      known == me[2] \in Robots
      Changed == {f \in Files : Ids(e, f) # Ids(s.e, f)}
  IN  (IF \A f \in Changed : \E x \in L : f \in Own(x[1], x[2]) THEN {} ELSE {"a file of no run at work changed"})
 \cup (IF \A f \in Files : f[1] = "kin" => f2[f] \in {Absent, Good} THEN {} ELSE {"stored kinematics not whole"})
 \cup (IF MayShow(s.fs, s.t, f2, t2, L) \/ (\E f \in Changed : ~\E x \in L : f \in Own(x[1], x[2])) \/ (\E f \in Files : f[1] = "kin" /\ f2[f] = Torn)
       THEN {} ELSE {"a file of no run at work came or went"})
 \cup (IF \A x \in Range(e.other) : x[2] = 0 => x \in Range(s.e.other) THEN {} ELSE {"a file that no run makes"})
 \cup (IF \A x \in Range(s.e.other) : x[2] = 0 => x \in Range(e.other) THEN {} ELSE {"a file that no run makes was changed or removed"})
 \cup (IF e.e # "end" THEN {}
       ELSE CASE e.how = "done"    -> (IF known THEN {} ELSE {"a robot without a table was worked on"})
                                      \cup (IF known => Complete(f2, me[1], me[2]) THEN {} ELSE {"files missing or with other contents at the end of the run"})
                                      \cup (IF known => Tidy(t2, me[2], Cardinality({i \in s.dead : i[2] = me[2]}), Cardinality({i \in DOMAIN s.live : i # e.run /\ s.live[i][2] = me[2]})) THEN {} ELSE {"a run that ended left its temporary file"})
              [] e.how = "refused" -> IF known THEN {"a robot of the table was refused"} ELSE {}
              [] e.how = "dead"    -> {}
              [] OTHER             -> {"the run ended with an error"})
After(h, s, e) ==
  LET me == IF e.e = "begin" THEN <<e.p, e.r>> ELSE s.live[e.run]
  IN [live |-> IF e.e = "begin" THEN s.live @@ (e.run :> me)
               ELSE IF e.e = "end" THEN [i \in (DOMAIN s.live) \ {e.run} |-> s.live[i]] ELSE s.live,
      dead |-> IF e.e = "end" /\ e.how = "dead" THEN s.dead \cup {<<e.run, me[2]>>} ELSE s.dead,
      fs |-> State(h, e), t |-> Tmps(e), e |-> e]
S0(h) == [live |-> <<>>, dead |-> {}, fs |-> State(h, h.before), t |-> {}, e |-> h.before]
First(h) == FoldLeft(LAMBDA a, e : IF a.bad # {} THEN a
                                   ELSE LET b == Broken(h, a.s, e) IN [s |-> After(h, a.s, e), k |-> a.k + 1, bad |-> b],
                     [s |-> S0(h), k |-> 0, bad |-> {}], h.events)
TInit == it = 1 /\ bad = <<>> /\ fs = 0 /\ tmp = 0 /\ run = 0
TNext == /\ it <= Len(Items) /\ it' = it + 1 /\ UNCHANGED <<fs, tmp, run>>
         /\ LET b == First(Items[it]) IN bad' = IF b.bad = {} THEN bad ELSE Append(bad, [it |-> it, k |-> b.k, clauses |-> SetToSeq(b.bad)])
TSpec == TInit /\ [][TNext]_<<it, bad, fs, tmp, run>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================

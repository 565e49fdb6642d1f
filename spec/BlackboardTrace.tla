--------------------------- MODULE BlackboardTrace --------------------------
(* Recorded sequences of set/get/inc on real blackboards against Blackboard *)
EXTENDS Blackboard, Json, IOUtils
VARIABLES ep, l, bad
tv == <<bbvars, ep, l, bad>>
Eps == JsonDeserialize(IOEnv.TRACE).episodes
Ev  == Eps[ep][l]
V(x) == [ty |-> x.ty, v |-> x.v]
TInit == Init0 /\ ep = 1 /\ l = 1 /\ bad = <<>>
NextEp == /\ ep' = ep + 1 /\ l' = 1
          /\ base' = [k \in {"TotalCost"} |-> IntV(0)] /\ tm' = Empty /\ nm' = Empty
          /\ ret' = None /\ abs' = [x \in {<< <<0, 0>>, "TotalCost">>} |-> IntV(0)]
Fits == CASE Ev.op = "get" -> Ev.out = "ok" /\ V(Ev.r) = Read(Ev.t, Ev.n, Ev.k)
          [] Ev.op = "set" -> Ev.out = "ok"
          [] Ev.op = "inc" -> Ev.out = IF MayInc(Ev.t, Ev.n, Ev.k) THEN "ok" ELSE "refused"
Act == CASE Ev.op = "get" -> Get(Ev.t, Ev.n, Ev.k)
         [] Ev.op = "set" -> Set(Ev.t, Ev.n, Ev.k, V(Ev.v))
         [] Ev.op = "inc" -> IF Ev.out = "ok" THEN Inc(Ev.t, Ev.n, Ev.k, Ev.v.v) ELSE IncRefused(Ev.t, Ev.n, Ev.k)
TNext ==
  \/ /\ ep <= Len(Eps) /\ l <= Len(Eps[ep])
     /\ IF Fits THEN Act /\ l' = l + 1 /\ UNCHANGED <<ep, bad>>
        ELSE /\ NextEp
             /\ bad' = Append(bad, [ep |-> ep, l |-> l, expected |-> Read(Ev.t, Ev.n, Ev.k), got |-> Ev])
  \/ ep <= Len(Eps) /\ l > Len(Eps[ep]) /\ NextEp /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_tv
Report == ep > Len(Eps) => PrintT(<<"VERDICT", ToJson([episodes |-> Len(Eps), bad |-> bad])>>)
View == <<ep, l>>
=============================================================================

-------------------------------- MODULE BTMC --------------------------------
(* Exhaustive check of the engine model on every small forest below: all    *)
(* leaf statuses, all times, all interleavings of two trees over one or two *)
(* blackboards.  Histories: what every child returned in this execution of  *)
(* a node (kids, parallel to stack) and the last status of a node per       *)
(* blackboard (lastSt).                                                     *)
EXTENDS BT
CONSTANTS Family, MaxTicks
VARIABLES kids, lastSt, last
vars == <<bvars, kids, lastSt, last>>

L(k)    == [kind |-> k, ch |-> <<>>, max |-> 1, cost |-> 0]
LC(c)   == [kind |-> "leaf", ch |-> <<>>, max |-> 0, cost |-> c]
Nd(k, ch, mx) == [kind |-> k, ch |-> ch, max |-> mx, cost |-> 0]
D(k, mx, c) == Nd(k, <<c>>, mx)

\* one composite over three leaves
F1 == {<<Nd(k, <<2, 3, 4>>, 0), LC(1), LC(2), LC(0)>> : k \in Composite}
\* one decorator over a leaf (and without child)
F2 == {<<D(k, mx, 2), LC(1)>> : k \in Decorator, mx \in 0..2}
      \cup {<<Nd(k, <<>>, 1)>> : k \in Decorator \cup Composite \cup {"wait", "succ", "fail", "run", "err"}}
\* composite over (decorator over leaf) and a leaf
F3 == {<<Nd(k, <<2, 4>>, 0), D(d, 1, 3), LC(1), LC(0)>> : k \in Composite, d \in Decorator}
\* decorator over composite over two leaves, and composite over composite
F4 == {<<D(d, 2, 2), Nd(k, <<3, 4>>, 0), LC(1), LC(0)>> : k \in Composite, d \in Decorator}
F5 == {<<Nd(k1, <<2, 5>>, 0), Nd(k2, <<3, 4>>, 0), LC(0), LC(0), LC(0)>> : k1, k2 \in Composite}
Forest == CASE Family = 1 -> F1 [] Family = 2 -> F2 [] Family = 3 -> F3 [] Family = 4 -> F4 [] Family = 5 -> F5
\* two trees for family 2: the same node twice would share statistics, so a copy
Two(f) == f \o [i \in 1..Len(f) |-> [f[i] EXCEPT !.ch = [j \in DOMAIN @ |-> @[j] + Len(f)]]]

Init == /\ \E f \in Forest : IF Family = 2 THEN InitWith(Two(f), <<1, 1 + Len(f)>>, 2)
                                           ELSE InitWith(f, <<1>>, 1)
        /\ kids = <<>> /\ lastSt = [b \in DOMAIN total |-> [n \in DOMAIN nodes |-> 0]]
        /\ last = 0

N == DOMAIN nodes
Sum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i-1) IN S(Len(s))
Ticks == Sum(tcount)

Next ==
  \/ \E b \in DOMAIN total, t \in DOMAIN roots :
        Ticks < MaxTicks /\ StartTick(b, t) /\ UNCHANGED <<kids, lastSt, last>>
  \/ \E n \in N : Enter(n) /\ kids' = Append(kids, <<>>) /\ UNCHANGED <<lastSt, last>>
  \/ \E n \in N : (Open(n) \/ Tick(n) \/ Close(n)) /\ UNCHANGED <<kids, lastSt, last>>
  \/ \E n \in N, s \in Status, dt \in {0, 2} :
        /\ Kind(n) # "leaf" => dt = 0
        /\ Return(n, s, dt) /\ lastSt' = [lastSt EXCEPT ![cur.b][n] = s] /\ UNCHANGED <<kids, last>>
  \/ \E n \in N : /\ Exit(n) /\ UNCHANGED lastSt
                  /\ kids' = IF Len(kids) = 1 THEN <<>>
                             ELSE [SubSeq(kids, 1, Len(kids)-1) EXCEPT ![Len(kids)-1] = Append(@, Top.st)]
                  /\ last' = IF Len(stack) = 1 THEN Top.st ELSE last
  \/ EndTick /\ UNCHANGED <<kids, lastSt, last>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the statistics and the node log only accumulate: hide them from the state
View == <<nodes, roots, cur, stack, isOpen, mem, opened, ncount, cost, tcount, kids, lastSt, clock, last>>

-----------------------------------------------------------------------------
StackIsPath ==
  /\ stack # <<>> => stack[1].n = roots[cur.t]
  /\ \A i \in 1..Len(stack)-1 : \E j \in DOMAIN Ch(stack[i].n) : Ch(stack[i].n)[j] = stack[i+1].n
  /\ Len(kids) = Len(stack)

\* a node is open exactly if its last execution on that blackboard is RUNNING
\* (or it is being executed right now)
OpenIffRunning ==
  \A b \in DOMAIN isOpen, n \in N :
     (\A i \in DOMAIN stack : stack[i].n # n) => (isOpen[b][n] <=> lastSt[b][n] = RUNNING)

OpenedBounds == Len(opened) <= ncount /\ Len(stack) <= ncount

\* truth functions, stated on the statuses the children really returned
All(s, P(_)) == \A i \in DOMAIN s : P(s[i])
Truth ==
  (stack # <<>> /\ Top.p = "returned" /\ Kind(Top.n) # "leaf") =>
    LET f == Top  s == f.st  ks == kids[Len(kids)]  nc == NCh(f)
        IsS(x) == x = SUCCESS  IsF(x) == x = FAILURE  IsSF(x) == x \in {SUCCESS, FAILURE}
        pre == SubSeq(ks, 1, Len(ks) - 1)
    IN CASE Kind(f.n) = "seq"  -> /\ (s = SUCCESS) <=> (All(ks, IsS) /\ Len(ks) = nc)
                                  /\ s # SUCCESS => All(pre, IsS) /\ ks[Len(ks)] = s
         [] Kind(f.n) = "pri"  -> /\ (s = FAILURE) <=> (All(ks, IsF) /\ Len(ks) = nc)
                                  /\ s # FAILURE => All(pre, IsF) /\ ks[Len(ks)] = s
         [] Kind(f.n) = "or"   -> /\ Len(ks) = nc /\ s \in {SUCCESS, FAILURE}
                                  /\ s = FAILURE <=> All(ks, IsF)
         [] Kind(f.n) = "mseq" -> /\ s = SUCCESS => All(ks, IsS)
                                  /\ s # SUCCESS => All(pre, IsS) /\ ks[Len(ks)] = s
                                  /\ s = RUNNING => Ch(f.n)[MemOf(f.n)] \in DOMAIN nodes
         [] Kind(f.n) = "mpri" -> /\ s = FAILURE => All(ks, IsF)
                                  /\ s # FAILURE => All(pre, IsF) /\ ks[Len(ks)] = s
         [] Kind(f.n) = "inv"  -> nc = 1 => ks # <<>> /\ s = Invert(ks[1])
         [] Kind(f.n) = "lim"  -> Len(ks) <= 1 /\ (nodes[f.n].max = 0 /\ nc = 1 => ks = <<>> /\ s = FAILURE)
         [] Kind(f.n) = "rep"  -> Len(ks) <= nodes[f.n].max /\ All(pre, IsSF)
         [] Kind(f.n) = "ruf"  -> Len(ks) <= nodes[f.n].max /\ All(pre, IsS)
         [] Kind(f.n) = "rus"  -> Len(ks) <= nodes[f.n].max /\ All(pre, IsF)
         [] OTHER -> TRUE

Statistics == \A n \in N : nsucc[n] <= nticks[n]
CostsAreSums == \A n \in N : cost[n] >= 0
Terminates == [](cur.b # 0 => <>(cur.b = 0))
=============================================================================

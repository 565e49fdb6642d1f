--------------------------------- MODULE BT ---------------------------------
(***************************************************************************)
(* The behaviour-tree engine that drives IKBT (package b3): a small-step   *)
(* machine with one action per user-visible step of a node execution       *)
(* (enter, open, tick, return of the tick, close, exit) and an explicit    *)
(* call stack.  Leaves are the environment: their status and the time they *)
(* take are nondeterministic.  The machine covers the composites Sequence, *)
(* Priority, OrNode, MemSequence, MemPriority, the decorators Inverter,    *)
(* Limiter, Repeater, RepeatUntilFailure, RepeatUntilSuccess, MaxTime and  *)
(* the actions Wait, Succeeder, Failer, Runner, Error.                     *)
(*                                                                         *)
(* Several trees may share a blackboard and one tree may be ticked on      *)
(* several blackboards: node memory is kept per (blackboard, node); node   *)
(* statistics per node; engine book-keeping per (blackboard, tree).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SUCCESS == 1
FAILURE == 2
RUNNING == 3
ERROR   == 4
Status  == {SUCCESS, FAILURE, RUNNING, ERROR}

VARIABLES
  nodes,    \* <<[kind, ch, max, cost]>>: all nodes, ch = children by index
  roots,    \* <<root node of tree 1, root of tree 2, ...>>
  cur,      \* [b, t] blackboard and tree of the tick in progress, or b = 0
  stack,    \* frames of the node executions in progress, innermost last
  isOpen,   \* [b][n]  is_open flag in the node's memory
  mem,      \* [b][n]  the loop counter / resume index / start time of a node
  opened,   \* nodes pushed on entering and popped on closing (this tick)
  ncount,   \* nodes entered during this tick
  openNodes,\* [b][t]  what the engine stores when the tick is over
  nodeCount,\* [b][t]
  total,    \* [b] accumulated cost
  nticks,   \* [n] executions of the node's tick
  nsucc,    \* [n] ticks that returned SUCCESS
  cost,     \* [n] current cost
  tcount,   \* [t] ticks of the tree
  log,      \* lines written to the node log: <<status, node>>
  clock     \* virtual time

bvars == <<nodes, roots, cur, stack, isOpen, mem, opened, ncount, openNodes,
           nodeCount, total, nticks, nsucc, cost, tcount, log, clock>>

Composite == {"seq", "pri", "or", "mseq", "mpri"}
Decorator == {"inv", "lim", "rep", "ruf", "rus", "maxt"}
Fixed     == [succ |-> SUCCESS, fail |-> FAILURE, run |-> RUNNING, err |-> ERROR]
Kind(n)   == nodes[n].kind
Ch(n)     == nodes[n].ch

Top    == stack[Len(stack)]
Idle   == stack = <<>> /\ cur.b = 0

(* A frame: node n, phase p, k = next child (composites), last = status of *)
(* the child that returned last (0: none yet), sum = cost of the children  *)
(* that ran, i = local loop counter, t0 = time at the start of the tick,   *)
(* st = returned status.                                                   *)
Frame(n) == [n |-> n, p |-> "entered", k |-> 1, last |-> 0, sum |-> 0, i |-> 0, t0 |-> 0, st |-> 0,
             any |-> FALSE]

MemOf(n)   == mem[cur.b][n]
IsOpen(n)  == isOpen[cur.b][n]

-----------------------------------------------------------------------------
(* What a running node does next, as a function of its frame:              *)
(*   Want(f)  the child it executes next, or 0                             *)
(*   Result(f) the status it returns, if Want(f) = 0                       *)

NCh(f)   == Len(Ch(f.n))
LoopMax(f) == nodes[f.n].max

\* composites
SeqStop(f) == f.last # 0 /\ f.last # SUCCESS
PriStop(f) == f.last # 0 /\ f.last # FAILURE

\* repeating decorators: may the loop body run (again)?
LoopGuard(f) == LoopMax(f) < 0 \/ f.i < LoopMax(f)
LoopStop(f)  == /\ f.last # 0
                /\ CASE Kind(f.n) = "rep" -> f.last \notin {SUCCESS, FAILURE}
                     [] Kind(f.n) = "ruf" -> f.last # SUCCESS
                     [] Kind(f.n) = "rus" -> f.last # FAILURE

Want(f) ==
  CASE Kind(f.n) \in {"seq", "mseq"} -> IF SeqStop(f) \/ f.k > NCh(f) THEN 0 ELSE Ch(f.n)[f.k]
    [] Kind(f.n) \in {"pri", "mpri"} -> IF PriStop(f) \/ f.k > NCh(f) THEN 0 ELSE Ch(f.n)[f.k]
    [] Kind(f.n) = "or"              -> IF f.k > NCh(f) THEN 0 ELSE Ch(f.n)[f.k]
    [] Kind(f.n) \in {"inv", "maxt"} -> IF NCh(f) = 0 \/ f.last # 0 THEN 0 ELSE Ch(f.n)[1]
    [] Kind(f.n) = "lim"             -> IF NCh(f) = 0 \/ f.last # 0 \/ f.i >= LoopMax(f) THEN 0 ELSE Ch(f.n)[1]
    [] Kind(f.n) \in {"rep", "ruf", "rus"} ->
          IF NCh(f) = 0 \/ LoopStop(f) \/ ~LoopGuard(f) THEN 0 ELSE Ch(f.n)[1]
    [] OTHER -> 0

Invert(s) == CASE s = SUCCESS -> FAILURE [] s = FAILURE -> SUCCESS [] OTHER -> s

\* status returned once no further child is wanted; leaves are free
Results(f) ==
  CASE Kind(f.n) \in {"seq", "mseq"} -> {IF SeqStop(f) THEN f.last ELSE SUCCESS}
    [] Kind(f.n) \in {"pri", "mpri"} -> {IF PriStop(f) THEN f.last ELSE FAILURE}
    [] Kind(f.n) = "or"              -> {IF f.any THEN SUCCESS ELSE FAILURE}
    [] Kind(f.n) \in Decorator /\ NCh(f) = 0 -> {ERROR}
    [] Kind(f.n) = "inv"             -> {Invert(f.last)}
    [] Kind(f.n) = "lim"             -> {IF f.last = 0 THEN FAILURE ELSE f.last}
    [] Kind(f.n) = "maxt"            -> {IF f.t0 - MemOf(f.n) > LoopMax(f) THEN FAILURE ELSE f.last}
    [] Kind(f.n) = "rep"             -> {IF f.last = 0 THEN SUCCESS ELSE f.last}
    [] Kind(f.n) \in {"ruf", "rus"}  -> {IF f.last = 0 THEN ERROR ELSE f.last}
    [] Kind(f.n) = "wait"            -> {IF f.t0 - MemOf(f.n) > LoopMax(f) THEN SUCCESS ELSE RUNNING}
    [] Kind(f.n) \in DOMAIN Fixed    -> {Fixed[Kind(f.n)]}
    [] OTHER -> Status   \* "leaf": the environment decides

\* counting loops: does this child status advance the loop counter?
Counts(kind, s) == CASE kind = "rep" -> s \in {SUCCESS, FAILURE}
                     [] kind = "lim" -> s \in {SUCCESS, FAILURE}
                     [] kind = "ruf" -> s = SUCCESS
                     [] kind = "rus" -> s = FAILURE
                     [] OTHER -> FALSE

\* memory written by the node when its tick returns with status s
MemAfter(f, s) ==
  CASE Kind(f.n) \in {"mseq", "mpri"} -> IF f.last = RUNNING THEN f.k ELSE MemOf(f.n)
    [] Kind(f.n) \in {"rep", "ruf", "rus"} -> IF NCh(f) = 0 THEN MemOf(f.n) ELSE f.i
    [] Kind(f.n) = "lim" -> f.i
    [] OTHER -> MemOf(f.n)

-----------------------------------------------------------------------------
(* Actions                                                                 *)

StartTick(b, t) ==
  /\ Idle
  /\ cur' = [b |-> b, t |-> t]
  /\ tcount' = [tcount EXCEPT ![t] = @ + 1]
  /\ opened' = <<>> /\ ncount' = 0
  /\ UNCHANGED <<nodes, roots, stack, isOpen, mem, openNodes, nodeCount, total,
                 nticks, nsucc, cost, log, clock>>

MayEnter(n) == \/ stack = <<>> /\ cur.b # 0 /\ n = roots[cur.t] /\ ncount = 0
               \/ stack # <<>> /\ Top.p = "running" /\ Want(Top) = n

Enter(n) ==
  /\ MayEnter(n)
  /\ stack' = Append(stack, Frame(n))
  /\ opened' = Append(opened, n)
  /\ ncount' = ncount + 1
  /\ UNCHANGED <<nodes, roots, cur, isOpen, mem, openNodes, nodeCount, total,
                 nticks, nsucc, cost, tcount, log, clock>>

MayOpen(n) == stack # <<>> /\ Top.n = n /\ Top.p = "entered" /\ ~IsOpen(n)

Open(n) ==
  /\ MayOpen(n)
  /\ isOpen' = [isOpen EXCEPT ![cur.b][n] = TRUE]
  /\ mem' = [mem EXCEPT ![cur.b][n] =
               CASE Kind(n) \in {"mseq", "mpri"} -> 1
                 [] Kind(n) \in {"rep", "ruf", "rus", "lim"} -> 0
                 [] Kind(n) \in {"maxt", "wait"} -> clock
                 [] OTHER -> @]
  /\ stack' = [stack EXCEPT ![Len(stack)].p = "open"]
  /\ UNCHANGED <<nodes, roots, cur, opened, ncount, openNodes, nodeCount, total,
                 nticks, nsucc, cost, tcount, log, clock>>

MayTick(n) == /\ stack # <<>> /\ Top.n = n
              /\ Top.p = "open" \/ (Top.p = "entered" /\ IsOpen(n))

Tick(n) ==
  /\ MayTick(n)
  /\ stack' = [stack EXCEPT ![Len(stack)] =
       [@ EXCEPT !.p = "running", !.t0 = clock,
                 !.k = IF Kind(n) \in {"mseq", "mpri"} THEN MemOf(n) ELSE 1,
                 !.i = IF Kind(n) \in {"rep", "ruf", "rus", "lim"} THEN MemOf(n) ELSE 0]]
  /\ nticks' = [nticks EXCEPT ![n] = @ + 1]
  /\ UNCHANGED <<nodes, roots, cur, isOpen, mem, opened, ncount, openNodes, nodeCount,
                 total, nsucc, cost, tcount, log, clock>>

MayReturn(n, s) == /\ stack # <<>> /\ Top.n = n /\ Top.p = "running" /\ Want(Top) = 0
                   /\ s \in Results(Top)

CostAfter(f) == IF Kind(f.n) \in {"seq", "pri", "or"} THEN f.sum ELSE cost[f.n]

(* The tick of n returns s; dt is the time the tick took (leaves only).    *)
Return(n, s, dt) ==
  /\ MayReturn(n, s)
  /\ stack' = [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.p = "returned", !.st = s]]
  /\ cost' = [cost EXCEPT ![n] = CostAfter(Top)]
  /\ total' = [total EXCEPT ![cur.b] = @ + CostAfter(Top)]
  /\ nsucc' = [nsucc EXCEPT ![n] = IF s = SUCCESS THEN @ + 1 ELSE @]
  /\ mem' = [mem EXCEPT ![cur.b][n] = MemAfter(Top, s)]
  /\ log' = IF s \in {SUCCESS, FAILURE} THEN Append(log, <<s, n>>) ELSE log
  /\ clock' = clock + dt
  /\ UNCHANGED <<nodes, roots, cur, isOpen, opened, ncount, openNodes, nodeCount, nticks, tcount>>

MayClose(n) == stack # <<>> /\ Top.n = n /\ Top.p = "returned" /\ Top.st # RUNNING

Close(n) ==
  /\ MayClose(n)
  /\ isOpen' = [isOpen EXCEPT ![cur.b][n] = FALSE]
  /\ opened' = SubSeq(opened, 1, Len(opened) - 1)
  /\ stack' = [stack EXCEPT ![Len(stack)].p = "closed"]
  /\ UNCHANGED <<nodes, roots, cur, mem, ncount, openNodes, nodeCount, total,
                 nticks, nsucc, cost, tcount, log, clock>>

MayExit(n) == /\ stack # <<>> /\ Top.n = n
              /\ Top.p = "closed" \/ (Top.p = "returned" /\ Top.st = RUNNING)

\* the parent frame after its child returned s at cost c
Deliver(f, s, c) ==
  [f EXCEPT !.last = s, !.sum = @ + c, !.any = @ \/ s # FAILURE,
            !.k = CASE Kind(f.n) = "mseq" -> IF s = SUCCESS THEN @ + 1 ELSE @
                    [] Kind(f.n) = "mpri" -> IF s = FAILURE THEN @ + 1 ELSE @
                    [] OTHER -> @ + 1,
            !.i = IF Counts(Kind(f.n), s) THEN @ + 1 ELSE @]

Exit(n) ==
  /\ MayExit(n)
  /\ LET rest == SubSeq(stack, 1, Len(stack) - 1) IN
     IF rest = <<>>
     THEN /\ stack' = <<>>
          /\ openNodes' = [openNodes EXCEPT ![cur.b][cur.t] = opened]
          /\ nodeCount' = [nodeCount EXCEPT ![cur.b][cur.t] = ncount]
     ELSE /\ stack' = [rest EXCEPT ![Len(rest)] = Deliver(@, Top.st, cost[n])]
          /\ UNCHANGED <<openNodes, nodeCount>>
  /\ UNCHANGED <<nodes, roots, cur, isOpen, mem, opened, ncount, total,
                 nticks, nsucc, cost, tcount, log, clock>>

\* the tree's tick is over; its status was returned by the root's Exit
EndTick ==
  /\ stack = <<>> /\ cur.b # 0 /\ ncount > 0
  /\ cur' = [b |-> 0, t |-> 0]
  /\ UNCHANGED <<nodes, roots, stack, isOpen, mem, opened, ncount, openNodes, nodeCount,
                 total, nticks, nsucc, cost, tcount, log, clock>>

\* initial state for a given forest
InitWith(ns, rs, nb) ==
  LET N == 1..Len(ns) T == 1..Len(rs) B == 1..nb IN
  /\ nodes = ns /\ roots = rs
  /\ cur = [b |-> 0, t |-> 0] /\ stack = <<>>
  /\ isOpen = [b \in B |-> [n \in N |-> FALSE]]
  /\ mem = [b \in B |-> [n \in N |-> -1]]
  /\ opened = <<>> /\ ncount = 0
  /\ openNodes = [b \in B |-> [t \in T |-> <<>>]]
  /\ nodeCount = [b \in B |-> [t \in T |-> 0]]
  /\ total = [b \in B |-> 0]
  /\ nticks = [n \in N |-> 0] /\ nsucc = [n \in N |-> 0]
  /\ cost = [n \in N |-> ns[n].cost]
  /\ tcount = [t \in T |-> 0]
  /\ log = <<>> /\ clock = 0

(* The only event a node execution in progress can continue with. *)
NextEvent ==
  IF stack = <<>> THEN (IF cur.b = 0 THEN [e |-> "idle", n |-> 0]
                        ELSE IF ncount = 0 THEN [e |-> "enter", n |-> roots[cur.t]]
                        ELSE [e |-> "done", n |-> 0])
  ELSE CASE MayOpen(Top.n) -> [e |-> "open", n |-> Top.n]
         [] MayTick(Top.n) -> [e |-> "tick", n |-> Top.n]
         [] Top.p = "running" /\ Want(Top) # 0 -> [e |-> "enter", n |-> Want(Top)]
         [] Top.p = "running" -> [e |-> "ret", n |-> Top.n]
         [] MayClose(Top.n) -> [e |-> "close", n |-> Top.n]
         [] MayExit(Top.n) -> [e |-> "exit", n |-> Top.n]
=============================================================================

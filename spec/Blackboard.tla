----------------------------- MODULE Blackboard -----------------------------
(***************************************************************************)
(* The blackboard shared by the trees and nodes of a behaviour tree.       *)
(* Concrete state: three levels of memory (base, per tree, per node inside *)
(* a tree) created on demand.  A scope is <<t, n>>; 0 stands for "not      *)
(* given".  A node without a tree addresses the base memory.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Trees, Nodes, Values
None == [ty |-> "none", v |-> 0]
IntV(i) == [ty |-> "int", v |-> i]

VARIABLES base, tm, nm,   \* partial functions: key -> value, t -> .., <<t,n>> -> ..
          ret,            \* what the last operation returned
          abs             \* history: the last value stored under a (scope, key)
bbvars == <<base, tm, nm, ret, abs>>

Empty == [x \in {} |-> 0]
Upd(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
At(f, x, d)  == IF x \in DOMAIN f THEN f[x] ELSE d
Norm(t, n)   == IF t = 0 THEN <<0, 0>> ELSE <<t, n>>

\* the one entry a tree scope is born with: its (empty) list of open nodes
EmptyList == [ty |-> "other", v |-> 8]
Dflt(t, n, k) == IF t # 0 /\ n = 0 /\ k = "open_nodes" THEN EmptyList ELSE None

Read(t, n, k) ==
  IF t = 0 THEN At(base, k, None)
  ELSE IF n = 0 THEN At(At(tm, t, Empty), k, Dflt(t, n, k))
  ELSE At(At(nm, <<t, n>>, Empty), k, None)

Write(t, n, k, v) ==
  /\ IF t = 0 THEN base' = Upd(base, k, v) /\ UNCHANGED <<tm, nm>>
     ELSE IF n = 0 THEN tm' = Upd(tm, t, Upd(At(tm, t, Empty), k, v)) /\ UNCHANGED <<base, nm>>
     ELSE nm' = Upd(nm, <<t, n>>, Upd(At(nm, <<t, n>>, Empty), k, v)) /\ UNCHANGED <<base, tm>>
  /\ abs' = Upd(abs, <<Norm(t, n), k>>, v)

Init0 == /\ base = [k \in {"TotalCost"} |-> IntV(0)] /\ tm = Empty /\ nm = Empty
         /\ ret = None /\ abs = [x \in {<< <<0, 0>>, "TotalCost">>} |-> IntV(0)]

Set(t, n, k, v) == Write(t, n, k, v) /\ ret' = None
Get(t, n, k)    == ret' = Read(t, n, k) /\ UNCHANGED <<base, tm, nm, abs>>
\* incrementing is defined on integers that are there; anything else is refused
MayInc(t, n, k) == Read(t, n, k).ty = "int"
Inc(t, n, k, d) == /\ MayInc(t, n, k) /\ Write(t, n, k, IntV(Read(t, n, k).v + d)) /\ ret' = None
IncRefused(t, n, k) == ~MayInc(t, n, k) /\ ret' = None /\ UNCHANGED <<base, tm, nm, abs>>

Init == Init0
Next == \E t \in {0} \cup Trees, n \in {0} \cup Nodes, k \in Keys :
           \/ \E v \in Values : Set(t, n, k, v)
           \/ Get(t, n, k)
           \/ Inc(t, n, k, 1) \/ IncRefused(t, n, k)
Spec == Init /\ [][Next]_bbvars

\* every scope reads what was last stored in it, whatever the others did
Isolation == \A t \in {0} \cup Trees, n \in {0} \cup Nodes, k \in Keys \cup {"TotalCost"} :
                Read(t, n, k) = At(abs, <<Norm(t, n), k>>, Dflt(t, n, k))
Small == \A x \in DOMAIN abs : abs[x].v <= 2
NoRet == <<base, tm, nm, abs>>
=============================================================================

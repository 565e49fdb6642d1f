------------------------------- MODULE ScanMC -------------------------------
(* Equations arrive one at a time and unknowns get solved: the lists built  *)
(* constructively satisfy the declarative conditions of the property.       *)
EXTENDS Scan
CONSTANTS NU, NE
VARIABLES eqs, seq, U, lists
vars == <<eqs, seq, U, lists>>
Unk == 1..NU
Pool == [cost : {1, 2}, l : SUBSET Unk, r : SUBSET Unk]
E(x) == eqs[x]
Lists(q, s, u) == [k \in 1..3 |-> Sorted(s, u, k, LAMBDA x : q[x])]
Init == /\ \E p \in [1..NE -> Pool] : eqs = p
        /\ seq = <<>> /\ U = Unk /\ lists = <<<<>>, <<>>, <<>>>>
Arrive == /\ Len(seq) < NE + 1
          /\ \E x \in 1..NE : seq' = Append(seq, x) /\ lists' = Lists(eqs, seq', U) /\ UNCHANGED <<eqs, U>>
SolveOne == /\ \E u \in U : U' = U \ {u} /\ lists' = Lists(eqs, seq, U')
            /\ UNCHANGED <<eqs, seq>>
Next == Arrive \/ SolveOne
Spec == Init /\ [][Next]_vars
Partition == \A x \in Elems(seq) : LET c == Class(E(x), U) IN
                \A k \in 1..3 : Times(x, lists[k]) = (IF k = c THEN 1 ELSE 0)
NoneElse  == \A k \in 1..3 : Elems(lists[k]) \subseteq Elems(seq)
Ranked    == \A k \in 1..3 : Ordered(lists[k], LAMBDA x : E(x).cost)
\* solving unknowns only moves equations to lower lists, and in the end out of them
Lower     == [][\A x \in Elems(seq) : Class(E(x), U') <= Class(E(x), U)]_vars
Empty     == U = {} => lists = <<<<>>, <<>>, <<>>>>
=============================================================================

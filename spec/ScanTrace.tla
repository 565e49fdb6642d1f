------------------------------ MODULE ScanTrace ------------------------------
(* Recorded equation lists against Scan.  kind 0: a scan, 1: the refresh    *)
(* (scan, then the defining equations once more as 0 = l - r), 2: the lists *)
(* the search starts with.                                                  *)
EXTENDS Scan, Json, IOUtils
VARIABLES it, k, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]
Eq == TLCEval([x \in 1..Len(I.eqs) |-> [cost |-> I.eqs[x].cost, l |-> Elems(I.eqs[x].l), r |-> Elems(I.eqs[x].r)]])

Broken(c, E) ==
  LET U == Elems(c.unsolved)
      Ent == Elems(c.ent)
      cls == TLCEval([x \in DOMAIN E |-> Class(E[x], U)])
      Aux == {x[1] : x \in Elems(c.aux)}
      Forms == UNION {Elems(x) : x \in Elems(c.aux)}
      sets == [j \in 1..3 |-> Elems(c.lists[j])]
      NAux(x) == Cardinality({i \in DOMAIN c.aux : x \in Elems(c.aux[i])})
      \* a defining equation must be listed if it has one or two unsolved unknowns, after a refresh also with three
      Must(x) == cls[x[1]] \in {1, 2} \/ (c.kind = 1 /\ Count(E[x[1]], U) = 3)
  IN (IF \E x \in Ent : cls[x] # 0 /\ x \notin sets[cls[x]] THEN {"an equation is missing from the list of its count"} ELSE {})
     \cup (IF \E x \in Elems(c.aux) : Must(x) /\ x[1] \notin sets[cls[x[1]]] /\ x[2] \notin sets[cls[x[1]]]
           THEN {"a defining equation is missing"} ELSE {})
     \cup (IF \E j \in 1..3 : \E x \in sets[j] : cls[x] # j THEN {"an equation in the list of another count"} ELSE {})
     \cup (IF \E j \in 1..3 : ~(sets[j] \subseteq (Ent \cup Forms)) THEN {"an equation from nowhere"} ELSE {})
     \cup (IF \E j \in 1..3 : Len(c.lists[j]) # Cardinality(sets[j]) /\
              \E x \in sets[j] : Times(x, c.lists[j]) > (IF x \in Ent THEN 1 ELSE 0) + NAux(x)
           THEN {"an equation listed twice"} ELSE {})
     \cup (IF c.kind = 0 /\ \E j \in 1..3 : ~Ordered(c.lists[j], LAMBDA x : E[x].cost) THEN {"not in order of complexity"} ELSE {})
     \cup (IF c.kind # 0 /\ \E j \in 1..3 : ~Ordered(SelectSeq(c.lists[j], LAMBDA x : x \notin Forms), LAMBDA x : E[x].cost)
           THEN {"not in order of complexity"} ELSE {})

Init == it = 1 /\ k = 1 /\ bad = <<>>
Next == /\ it <= Len(Items)
        /\ IF k > Len(I.calls) THEN it' = it + 1 /\ k' = 1 /\ UNCHANGED bad
           ELSE /\ k' = k + 1 /\ it' = it
                /\ LET b == Broken(I.calls[k], Eq) IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, call |-> k, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, k, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================

----------------------------- MODULE RootsTrace -----------------------------
(* Recorded calls of the solving methods against Roots.                     *)
(*  method 1 algebra, 2 tangent, 3 sine or cosine, 4 sine and cosine,       *)
(*  5 simultaneous.  id, solve: statuses (0: not reached).  sure: the       *)
(*  equations are plain instances of the method's form.  pts: evaluations:  *)
(*  given equations, the equations solved, the true value, the solutions.   *)
EXTENDS Roots, Json, IOUtils
VARIABLES it, bad
Items == JsonDeserialize(IOEnv.TRACE).items
I == Items[it]
Elems(s) == {s[i] : i \in DOMAIN s}

Accepted(x) == x.id = 1 /\ x.solve = 1
Point(x, p) ==
  LET real == {i \in DOMAIN p.sols : p.sols[i].real = 1}
      chosen == Elems(p.chosen)
      Fits(i) == \A e \in chosen : IF e.lin = 1 THEN Satisfies(e, p.sols[i]) ELSE Abs(p.sols[i].res) <= 100
      lin == {e \in chosen : e.lin = 1}
  IN (IF x.two = 0 /\ \E i \in real : ~Fits(i) THEN {"a solution that does not satisfy the equation"} ELSE {})
     \cup (IF x.two = 1 /\ ~\E i \in real : Fits(i) THEN {"neither branch satisfies the equations"} ELSE {})
     \cup (IF ~\E i \in real : Same(p.sols[i], p.true, x.angle) THEN {"the true value is lost"} ELSE {})
     \cup (IF \E i, j \in real : i < j /\ Same(p.sols[i], p.sols[j], x.angle) THEN {"two solutions are one"} ELSE {})
     \cup (IF x.method \in {1, 3, 4} /\ Cardinality(chosen) = 1 /\ lin = chosen /\ p.clear = 1 /\
              LET e == CHOOSE e \in chosen : TRUE
              IN Cardinality({i \in real : Fits(i)}) # Roots1(e) THEN {"number of solutions"} ELSE {})
     \cup (IF x.method \in {2, 5} /\ x.two = 0 /\ Len(p.sols) # 1 THEN {"number of solutions"} ELSE {})
     \cup (IF Len(p.given) > 0 /\ \E e \in lin : ~\E f \in Elems(p.given) : f.lin = 1 /\ Parallel(e, f) THEN {"solved an equation that was not given"} ELSE {})

Broken(x) ==
  (IF x.id \notin {1, 2} \/ x.solve \notin {0, 1, 2} THEN {"no status"} ELSE {})
  \cup (IF x.sure = 1 /\ ~Accepted(x) THEN {"a plain equation is declined"} ELSE {})
  \cup (IF x.id = 2 /\ x.was = 1 /\ x.touched = 1 THEN {"an unknown solved before was changed"} ELSE {})
  \cup (IF x.was = 1 /\ Accepted(x) THEN {"an unknown solved before was solved again"} ELSE {})
  \cup (IF x.others = 1 THEN {"another unknown was changed"} ELSE {})
  \cup (IF ~Accepted(x) /\ x.was = 0 /\ x.nsol > 0 THEN {"declined, but left a solution"} ELSE {})
  \cup (IF ~Accepted(x) /\ x.was = 0 /\ x.flag = 1 THEN {"declined, but marked solved"} ELSE {})
  \cup (IF Accepted(x) THEN
          (IF x.own = 1 THEN {"a solution in terms of itself"} ELSE {})
          \cup (IF x.foreign = 1 THEN {"a solution in terms of an unsolved unknown"} ELSE {})
          \cup (IF x.nsol # x.count \/ x.nsol = 0 THEN {"number of solutions not as recorded"} ELSE {})
          \cup (IF x.method \in {1, 4, 5} /\ x.flag = 0 THEN {"accepted, but not marked solved"} ELSE {})
          \cup (IF x.method \in {2, 3} /\ x.flag = 1 THEN {"marked solved before the ranking"} ELSE {})
          \cup UNION {Point(x, p) : p \in Elems(x.pts)}
        ELSE {})

Init == it = 1 /\ bad = <<>>
Next == /\ it <= Len(Items) /\ it' = it + 1
        /\ LET b == Broken(I) IN bad' = IF b = {} THEN bad ELSE Append(bad, [it |-> it, clauses |-> SetToSeq(b)])
Spec == Init /\ [][Next]_<<it, bad>>
Report == it > Len(Items) => PrintT(<<"VERDICT", ToJson([items |-> Len(Items), bad |-> bad])>>)
=============================================================================
